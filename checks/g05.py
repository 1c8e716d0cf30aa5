"""G05: see goan/ for the rule"""
import golib


def check():
    return golib.run('G05',
                     'with --check only temporary copies are written, and success means that every file read was compared equal to its formatted copy',
                     'The fmt command is interpreted path by path over its SSA form with the content of every file read as a typestate.',
                     {'obligation kind: format': 1, 'obligation kind: result': 1, 'check outcomes': 2, 'comparisons': 1})

"""G03: see goan/ for the rule"""
import golib


def check():
    return golib.run('G03',
                     "the running program's path is only ever the target of a rename of a file that is known to be complete; the embedded runtime is extracted through unique files into a directory named by its content",
                     'update, install and the extraction of the embedded compiler are interpreted path by path over their SSA form, for Linux and for Windows, with the state of every created file (written, synced, permissions, closed) as a typestate.',
                     {'obligation kind: program': 4, 'obligation kind: cache': 6, 'obligation kind: result': 4})

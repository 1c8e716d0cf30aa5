"""G01: see goan/ for the rule"""
import golib


def check():
    return golib.run('G01',
                     'nothing is requested over the network from a command, and no archive member is created, unless the tests made on the path establish where it comes from and goes to',
                     'The update and install commands are interpreted path by path over their SSA form, for Linux and for Windows; at every request the address must be a constant under the releases API or a URL whose parse was compared (scheme, host, path prefix, no dot segments), every response body is read through a limit, and every name from an archive is reduced to its last element and compared before a file is created.',
                     {'obligation kind: address': 4, 'obligation kind: bound': 2, 'obligation kind: extraction': 1})

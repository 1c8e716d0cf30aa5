"""G04: see goan/ for the rule"""
import golib


def check():
    return golib.run('G04',
                     'gray new creates only below a name established to be a single plain directory entry that does not exist, and removes only with the option, after a positive answer',
                     "The new command is interpreted path by path over its SSA form; every creation and removal is an obligation on the facts the path's tests establish about the name.",
                     {'obligation kind: creation': 2, 'obligation kind: removal': 1, 'creations followed': 10})

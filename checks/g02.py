"""G02: see goan/ for the rule"""
import golib


def check():
    return golib.run('G02',
                     "on every path through a command, success is reported only if the error of every operation that does the command's work was looked at and found nil",
                     'All nine commands that do work, and main, are interpreted path by path over their SSA form, loops and closures included; every operation of the listed kinds opens an obligation that only a nil test (or a documented exemption) closes before the command returns nil.',
                     {'obligation kind: operation': 40, 'obligation kind: success': 9, 'obligation kind: main': 2, 'command outcomes': 60})

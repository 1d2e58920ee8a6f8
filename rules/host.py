"""The test runner as a whole: HART_RUN_ALL_TESTS and the registry."""
from .common import *

def runner(ctx):
    """summary of the program's main body (HART_RUN_ALL_TESTS), or of TestRegistry::runAll"""
    f = ctx.func('vdrv::runAllTests')
    return ctx.run(f, None, [('in', P('argc')), ('in', P('argv'))])

def bodies(s):
    """the task body calls: (event, its loop)"""
    return [(e, s.loops[e.loops[-1]] if e.loops else None) for e in s.log if e.kind == 'indirect']

STDX = 'std::exception'
def fail_of(e, classes=None):
    """the body of this task failed, within the model that it only raises standard exceptions"""
    return or_(('throws', e.id), lt(ZERO, ('evout', e.id, 'added')))
def only_std(e, conds):
    """what is known about exceptions: a raised exception derives from std::exception"""
    return or_(not_(('throws', e.id)), ('isa', e.id, STDX))

def option(s, flag):
    """the variable a command-line option is bound to: (event, term of its value afterwards)"""
    import re
    for e in s.log:
        if e.kind == 'call' and e.n in ('add_option', 'add_flag', 'add_option_no_stream') and e.args and e.args[0][0] == 'str':
            if flag in re.split(r'[,\s]+', e.args[0][1]):
                return e
    raise Missing('option ' + flag)
def optval(e): return ('evout', e.id, 1)

def parsed(s):
    """facts: the command line was accepted"""
    return [not_(('throws', i)) for e in s.log for i in [e.id] if e.kind == 'call' and e.n == 'parse']

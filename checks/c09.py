from vlib.core import *
from vlib.diff import *
from vlib.gen_pp import PPWorker

RULE = ('A case is a generated source file (with up to three headers) of macro definitions, redefinitions, conditionals, includes and text that invokes the macros; the token sequence hlc /P writes is compared with the one of clang -E; '
        'non-trivial with at least one definition and two invocations; distinct by text.')


def main():
    s = Session('C09', rule=RULE, assumptions=['clang -E implements the standard; programs it rejects are discarded'])
    run_diff(s, PPWorker, 240 if TIER == 'quick' else 4000, 25)
    return s.finish()

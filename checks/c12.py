from vlib.core import *
from vlib.diff import *
from vlib.gen_order import SchedWorker

RULE = ('A case is a program of 8-80 interdependent file-scope declarations in 1-6 files, valid or with one to three invalid declarations, compiled under 6 to 10 schedules: twice with one thread and the same options, with several values of '
        '/thread_count (repeated), and with several values of /seed; non-trivial with at least 8 declarations and three kinds of dependency; distinct by text and schedules. Oracle: metamorphic: the same outcome and error lines from every schedule with the same work order, '
        'identical bytes from two single-threaded runs, the same exports, imports and behaviour from every image.')


def main():
    s = Session('C12', rule=RULE, assumptions=['threads of the compiler are real threads, their interleavings are those the operating system produces'])
    run_diff(s, SchedWorker, 300 if TIER == 'quick' else 3000, 6)
    return s.finish()

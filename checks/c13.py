from vlib.core import *
from vlib.diff import *
from vlib.gen_link import LinkWorker

RULE = ('A case is a program of 2-12 entities (objects, tentative definitions, statics of one name, functions, inline functions, selectany data, tables of addresses, shared structs and enums, block scope externs, static locals) spread over 1-6 files, '
        'with a history of reads, writes and address comparisons made from every file, built in three ways: all files in one run of hlc, one object per file, objects of several files, hlc and clang objects mixed, units added by #pragma compilation_unit; '
        'non-trivial with two files and four features; distinct by text. Oracle: the program compiled by clang file by file and linked by lld.')


def main():
    s = Session('C13', rule=RULE, assumptions=['clang 18 and lld resolve names as C linkage rules say'])
    run_diff(s, LinkWorker, 150 if TIER == 'quick' else 3000, 6)
    return s.finish()

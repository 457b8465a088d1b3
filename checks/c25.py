from vlib.core import *
from vlib.diff import *
from vlib.gen_rt import RtWorker

RULE = ('A case is a history of calls of memset/memcpy/memmove/memcmp/memchr/strchr/strrchr/strstr/wcschr/wcsrchr/wcsstr in a page between two inaccessible ones (boundary lengths, overlaps, high and NUL bytes, needles wider than a char, text at both edges), '
        'or a program of nested setjmp frames with jumps to any active frame, or non-volatile registers across a jump. Every case calls the functions, hence is non-trivial; distinct by text. Oracle: a model of the functions compiled by clang.')


def main():
    s = Session('C25', rule=RULE)
    run_diff(s, RtWorker, 160 if TIER == 'quick' else 3000, 20)
    return s.finish()

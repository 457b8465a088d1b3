from vlib.core import *
from vlib.diff import *
from vlib.gen_fuzz import FuzzWorker

RULE = ('A case is one source text and one command line (/obj, /dll or /Zs with or without debug information and the library). The text is a program of one of the generators of the other checks (integers, floats, statements, constants, layout, initialisers, aggregates, literals, preprocessor, assembler, intrinsics, printlike, linkage, exceptions, dead code, '
        'calls, images, objects, invalid programs) changed in 1 to 15 places - half of them within its structure (types, operators, operands, names and constants exchanged, so that most of the text still means something), half anywhere (tokens deleted, inserted, replaced, swapped, repeated, truncated, bytes, deep nesting) - or a soup of snippets and tokens. '
        'hlc has to end by itself within 20 s, with exit status 0, or with exit status 1 and an error message; no assertion, no internal error, no signal, no silent failure. Non-trivial if longer than ten characters; distinct by text.')


def main():
    s = Session('C19', rule=RULE, assumptions=['the process is the compiler built with its assertions on, run on the harness\' own implementation of the Windows calls it imports'])
    run_diff(s, FuzzWorker, 800 if TIER == 'quick' else 8000, 60)
    return s.finish()

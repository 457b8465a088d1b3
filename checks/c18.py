from vlib.core import *
from vlib.diff import *
from vlib.gen_invalid import InvalidWorker, RULES

RULE = ('A case is a program of functions, declarations and headers into which 1-3 of %d violations of rules hlc enforces were put at a random place (statement nesting, kind of expression context, header, several lines), compiled to an object, DLL or executable or only checked (/Zs); '
        'it has to end with status 1, errors on the lines of the violations only and no output file; the same program with the valid twin of each violation has to compile. Every case violates a rule; distinct by text.' % len(RULES))


def main():
    s = Session('C18', rule=RULE, assumptions=['the rules are those hlc documents by its own diagnostics; each was enforced on the tree the check was written for'])
    run_diff(s, InvalidWorker, 1200 if TIER == 'quick' else 8000, 16)
    return s.finish()

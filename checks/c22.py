from vlib.core import *
from vlib.diff import *
from vlib.gen_print import PrintWorker

RULE = ('A case is a program of 1-6 calls of printlike functions with 0-4 leading parameters whose format strings mix literal text, braces, C conversions, {}-specifiers (flags, width, precision, *, type letters, names with and without =) and %?, or that have no format string, '
        'for operands of generated scalar, enum, pointer, string, array, bit-field, structure and union types (nested, anonymous, typedef) given as variables, members, elements, dereferences, literals and results of functions; '
        'the receiver logs the format string and fetches every argument it announces, which have to be those of a Python model. A case is non-trivial if a call infers a format and more than three values are received; distinct by text.')


def main():
    s = Session('C22', rule=RULE, assumptions=['the model of the inferred format follows README.md and the comments of printlike__infer_format_string_and_arguments_for_argument', 'names of types are compared for arrays of integers, structures and unions only'])
    run_diff(s, PrintWorker, 1600 if TIER == 'quick' else 8000, 16)
    return s.finish()

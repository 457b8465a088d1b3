from vlib.core import *
from vlib.diff import *
from vlib.gen_asm import AsmWorker, AsmRunWorker

RULE = ('(a) A case is a group of up to 40 instructions with random registers, immediates and memory operands (locals, globals, members, base, scaled index, displacement, segments, prefixes); what hlc encodes is compared with what llvm-mc makes of the same text. '
        '(b) A case is a program of assembler blocks and inline_asm functions over locals, globals, elements and members with labels, loops and jumps, mixed with C; results compared with clang\'s assembler blocks. Every case has an assembled instruction; distinct by text.')


def main():
    s = Session('C20', rule=RULE, assumptions=['llvm-mc and clang 18 encode and disassemble instructions correctly'])
    q = TIER == 'quick'
    run_diff(s, AsmWorker, 240 if q else 3000, 8)
    run_diff(s, AsmRunWorker, 480 if q else 2500, 16)
    return s.finish()

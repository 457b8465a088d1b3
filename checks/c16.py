from vlib.core import *
from vlib.diff import *
from vlib.gen_dbg import DbgWorker

RULE = ('A case is a program of 1-2 files and a header with generated types (structures, unions, bit-fields, anonymous members, enumerations, arrays, pointers, function pointers), globals, static locals and 1-8 functions of nested statements whose every line contains a number found again in the machine code, '
        'compiled to a DLL by hlc or to an object linked by lld. llvm-pdbutil has to read the PDB without complaint; functions have the range of .pdata, their type, linkage and all parameters and locals; the code of every line has that line, file and checksum and sees exactly the variables in scope; '
        'variables are where the program says they are when it runs, with their types; structures have their size and members; globals, enumerators and names found by hash are right; the program behaves the same without debug information. Non-trivial: more than five marked lines; distinct by text.')


def main():
    s = Session('C16', rule=RULE, assumptions=['llvm-pdbutil and, for objects, lld read CodeView like the Microsoft tools', 'an enumeration may be described by its underlying type; objects do not describe static locals'])
    run_diff(s, DbgWorker, 240 if TIER == 'quick' else 2400, 16)
    return s.finish()

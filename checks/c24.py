from vlib.core import *
from vlib.diff import *
from vlib.gen_dead import DeadWorker

RULE = ('A case is a graph of 2-14 functions in 1-3 files that refer to each other through calls, addresses in expressions, local and static initialisers, tables and linked data of other files, with 1-3 exported roots or main; '
        'it is compiled to a DLL, an executable or objects linked by lld and run as it is and after unreachable functions (cycles, calls into live code, undefined names) and data were added, and has to behave like the Python model of the graph both times; '
        'in a third of the cases an undefined name is put within reach and has to be reported. A case is non-trivial if a root reaches more than one function and undefined names are mentioned by unreachable functions; distinct by text.')


def main():
    s = Session('C24', rule=RULE, assumptions=['unreachable: no chain of references from an exported function, main or data leads to the function; in objects only static functions are unreachable', 'pex loads and runs the images'])
    run_diff(s, DeadWorker, 640 if TIER == 'quick' else 8000, 16)
    return s.finish()

from vlib.core import *
from vlib.diff import *
from vlib.gen_cli import CliWorker
from vlib.gen_start import StartWorker

RULE = ('A case is (1) a command line of 0-25 options (/out in all its forms, /dll, /obj, /entry, /no_entry, /subsystem, /image_base, /no_dynamic_base, /D, /I, /LIBPATH, /l, /std, /MD..., /seed, /thread_count and options without effect) and files in random order, prefix, case, separators, response files and wildcards, '
        'a quarter of them with an error or an unknown option; status, files written, macro values, include directories, header fields of the image, imports and the entry function have to be those documented; '
        'or (2) a program with main, wmain, WinMain or wWinMain run with a random command line, environment and start-up information that prints what it is given, compared with a model of the Microsoft argument rules. Non-trivial: more than one option or at least one argument; distinct by text.')


def main():
    s = Session('C23', rule=RULE, assumptions=['line breaks inside arguments and quoted or escaped quotes in the program name are left out', 'an error in the command line ends with status 1 or 2'])
    run_diff(s, CliWorker, 500 if TIER == 'quick' else 8000, 16)
    run_diff(s, StartWorker, 700 if TIER == 'quick' else 20000, 32, first=100000)
    return s.finish()

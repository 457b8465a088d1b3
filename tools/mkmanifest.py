#!/usr/bin/env python3
"""writes MANIFEST.json from the claims below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS = {
 'C01': ('generated functions over integers and pointers, differential execution against clang for the same ABI, shrinking of choice sequences', 'random search over the grammar of well-defined expressions; bounded depth and frame size'),
  'C02': ('generated functions over float, double and mixed operands, differential execution against clang for the same ABI, shrinking of choice sequences', 'random search; results compared bit for bit except for NaN payloads'),
  'C03': ('generated control flow, differential execution against clang for the same ABI, shrinking of choice sequences', 'random search over bounded, always terminating functions'),
  'C04': ('generated constant expressions evaluated at translation time (initialisers, array sizes, case labels, enumerators, static assertions) and at run time, differential against clang, shrinking', 'random search over constant expressions of bounded depth'),
 'C05': ('generated struct and union types, differential comparison of sizes, alignments, offsets and bit positions with clang, shrinking', 'random search over types of bounded size'),
  'C06': ('generated initialisers of generated types, differential execution against clang, shrinking of choice sequences', 'random search; only the initialised member of a union is looked at'),
 'C07': ('generated histories of operations on guarded aggregates, every changed byte compared with the reference compiler after each operation, shrinking', 'random search; padding bits are not looked at'),
 'C08': ('generated call graphs split between hlc objects and clang objects, differential against an all-clang build, clobbered volatile registers and garbage upper bits, shrinking', 'random search over signatures of up to 11 parameters'),
 'C09': ('generated macro definitions, conditionals, includes and invocations, token sequences differential against clang -E, shrinking', 'random search over sources of a few dozen directives with up to three headers'),
 'C10': ('generated literals of every kind in every constant context, differential against clang, floating literals concentrated at rounding boundaries, shrinking', 'random search; multi-character constants and literals outside the range of their type are left out'),
  'C11': ('generated programs of interdependent file-scope declarations compiled in several permutations and partitions, differential against clang on one valid order, invalid programs rejected in every order, shrinking', 'random search over programs of 4-60 declarations and 2-5 orders each'),
  'C12': ('generated programs, valid and invalid, compiled under many schedules (/thread_count with real threads, /seed), metamorphic: equal outcomes, errors, interfaces and behaviour, equal bytes from equal runs', 'random search over schedules; the interleavings are those the operating system produces'),
  'C13': ('generated programs over several files with histories of accesses from every file, built together, as objects and mixed with clang objects, differential against clang and lld, shrinking', 'random search over programs of up to 12 entities in up to 6 files'),
  'C20': ('generated assembler instructions differential against llvm-mc, generated assembler blocks and inline_asm functions with operands of every storage, labels and loops executed and compared with clang, shrinking', 'random search over instructions of the tables of the assembler and blocks of up to some dozen instructions'),
  'C21': ('generated applications of the intrinsics and atomics to edge and random operands, differential against clang and models, histories of concurrent updates, shrinking', 'random search over operands; concurrent updates are run on a few threads'),
  'C25': ('generated call histories in a page between inaccessible ones and generated programs of setjmp frames, against a model of the functions, shrinking', 'random search over call histories and jump programs'),
  'C18': ('generated violations of language rules injected into generated programs together with their valid twins; oracle: rejected with located errors and no output, twin accepted, shrinking', 'random search over rules, contexts and programs'),
  'C24': ('generated graphs of functions and data with and without unreachable code, run against a model of the graph (metamorphic and model oracle), undefined names within reach as control, shrinking', 'random search over reference graphs'),
  'C22': ('generated calls of printlike functions whose receiver logs the format string and the arguments it announces, against a model of the inferred format, shrinking', 'random search over format strings, types and operands'),
  'C17': ('generated functions with nested __try/__except and raised exceptions run on a model of the Windows dispatcher, history compared with a two-phase model, virtual unwinding at every instruction, shrinking', 'random search; __finally, __leave and filters that use locals are recorded as known findings'),
  'C23': ('generated command lines in random order and spelling against a model of the documented effects on files, image fields and macros; generated program command lines and environments against a model of the Microsoft argument rules, shrinking', 'random search over options and command lines'),
  'C14': ('property-based testing: generated programs and image options; the image is checked by an independent PE reader against the format rules and the program, loaded and run at several bases with exports and imports observed', 'own PE reader and loader; no Windows loader available'),
  'C15': ('differential testing: generated programs split into objects, hlc objects linked by lld and run, compared with the image hlc writes itself and with clang; objects checked by an independent COFF reader', 'lld-link stands for the other linker'),
  'C19': ('fuzzing: grammar-based generation and structure-preserving and token-level mutation of programs, token soups; oracle: ends by itself with status 0 or with 1 and an error message', 'inputs up to some tens of kilobytes, 20 s per compilation; random, not coverage-guided'),
  'C16': ('property-based testing: generated programs with marked lines, scopes and types; oracle: what llvm-pdbutil reads from the PDB against the generated model, .pdata and addresses logged at run time', 'objects do not describe static locals, thread-local variables are not described; llvm-pdbutil is trusted'),
}
PENDING = 'no check built yet'
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 run.py setup', hooks=dict(guard='HLC_VERIF', enable='no hooks are needed: the checks build the unmodified sources and observe files, console output and the behaviour of compiled programs', source_commits=[]),
         checks=[dict(property=i, quick_cmd='VERIF_TIER=quick python3 run.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + i,
                      technique=CLAIMS[i][0], level='exploration', level_note=CLAIMS[i][1]) for i in ids if i in CLAIMS],
         not_applicable=[dict(property=i, reason=PENDING) for i in ids if i not in CLAIMS])
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""writes properties.jsonl (kept as a program because the file is long)"""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = state
    if observe: a['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=a))

prop('C01', 'Integer and pointer expressions evaluate as C defines them',
 "Every expression over integer and pointer operands (arithmetic, bitwise, shift, comparison, logical, conditional, comma, casts, increments, simple and compound assignment, calls, pointer arithmetic) has the type C gives it on the 64-bit Windows model and, compiled by hlc and run, yields the value and the side effects C gives it (two's complement wrap-around for signed overflow). This holds wherever the operands live (locals, globals, members, array elements, through pointers, temporaries) and however many temporaries are live.",
 ['programs', 'inputs'], 'all well-defined expressions of any depth over all integer types, all operand placements and all operand values, including boundary values',
 'A test samples a few operators and operand values; a wrong sign extension, spill or folded constant needs a particular combination of operator, types, operand location and value.',
 ['src/parse.c', 'src/emit_x64.c'],
 [('usual arithmetic conversions, implicit casts and constant folding while parsing', 'src/parse.c'), ('postfix IR to x64 with a stack of operand locations and register spilling', 'src/emit_x64.c emit_code_for_function__internal')],
 ['run-time values logged by compiled programs'])
prop('C02', 'Floating point expressions and conversions follow IEEE and C',
 "Expressions over float and double (arithmetic, comparisons including NaN and signed zeros, negation, logical use, conditional, assignment and compound assignment, argument passing, increments) and conversions between floating and integer types yield the IEEE single/double results C prescribes on Windows x64. The result does not depend on whether operands are constants, locals, globals, array elements or call results.",
 ['programs', 'inputs'], 'all expressions of floating and mixed type over all well-defined operand values',
 'Individual tests cannot cover the cross product of operator, operand widths, operand placement and special values.',
 ['src/parse.c', 'src/emit_x64.c', 'src/preprocess.c'], [('SSE code generation and float casts', 'src/emit_x64.c emit_float_cast and IR_cast_*'), ('folding of floating constants', 'src/parse.c')], ['logged bit patterns of results'])
prop('C03', 'Statements transfer control as C defines',
 "Any nesting of if, while, do-while, for, switch (with fall-through, case ranges of values, default anywhere), break, continue, goto, labels, return, blocks with shadowed and initialised locals, static locals and recursion executes the statements in the order C prescribes. Each controlling expression is evaluated exactly as often as C says.",
 ['programs'], 'all well-formed, terminating function bodies',
 'Control-flow defects (wrong jump target, dropped statement, merged jump contexts) depend on the particular nesting; tests hold a fixed set of shapes.',
 ['src/parse.c', 'src/emit_x64.c'], [('statement parsing and jump contexts', 'src/parse.c parse_statement'), ('jump patching and conditional locations', 'src/emit_x64.c')], ['trace of executed statements'])
prop('C04', 'Constant evaluation agrees with C and with run-time evaluation',
 "Every constant expression has, wherever the compiler evaluates it itself (static initialisers, array sizes, enumerators, case labels, bit-field widths, _Static_assert, #if), the value C gives it. That is also the value and type the same expression has when it is computed at run time from non-constant operands.",
 ['programs', 'inputs'], 'all constant expressions over all integer and floating types and address constants',
 'The folder handles every operator for every type separately; a test exercises few operator, type and value triples.',
 ['src/parse.c', 'src/main.c', 'src/preprocess.c'], [('folding in the expression parser', 'src/parse.c'), ('static initialiser evaluation', 'src/main.c evaluate_static_initializer'), ('#if evaluation', 'src/preprocess.c')], ['image data, sizeof, control flow'])
prop('C05', 'Type layout equals the Microsoft x64 layout',
 "sizeof, _Alignof, member offsets and bit-field positions of every complete type (nested structs and unions, anonymous members, arrays, bit-fields, #pragma pack, __declspec(align), packed types, flexible members, pointers, enums) equal those of the Microsoft x64 C ABI. They therefore agree with what another compiler for that ABI computes for the same declarations.",
 ['programs', 'configurations'], 'all combinations of member types, bit-field widths, pack and align settings',
 'Layout rules interact (bit-field unit sharing, packing, explicit alignment); only an independent oracle on many declarations can tell.',
 ['src/parse.c'], [('struct, union and bit-field layout', 'src/parse.c parse_struct_declaration / parse_declaration_list')], ['sizeof, offsets, bytes of objects'])
prop('C06', 'Initialisers give objects exactly the prescribed contents',
 "Every initialiser of a static or automatic object or compound literal (nested braces, brace elision, designators in any order, overriding, ranges of unnamed elements, strings, address constants, unions, bit-fields, unsized arrays) stores the values C prescribes in the sub-objects it designates and zero in every other sub-object. The size deduced for unsized arrays is the one C prescribes.",
 ['programs'], 'all well-formed initialisers for all object types, for static and automatic storage',
 'The space of type shape times initialiser shape is unbounded and static and automatic storage take different paths.',
 ['src/parse.c', 'src/main.c', 'src/emit_x64.c'], [('initializer parsing, designators and brace elision', 'src/parse.c parse_initializer'), ('static data evaluation', 'src/main.c evaluate_static_initializer')], ['bytes of the initialised object'])
prop('C07', 'Aggregates and bit-fields are read, written and copied exactly',
 "Assigning, passing, returning and selecting structs and unions of any size copies exactly their bytes and nothing beyond; reading and writing a member or bit-field (also by compound assignment and increment) affects exactly that member and converts as C prescribes. Neighbouring objects, members and bit-fields keep their value.",
 ['programs', 'histories'], 'all aggregate types and all sequences of accesses to them',
 'A clobbered neighbour or an off-by-one copy appears only for particular sizes, offsets and access sequences.',
 ['src/emit_x64.c', 'src/parse.c'], [('bit-field load/store', 'src/emit_x64.c emit_store bit-field paths'), ('struct copies', 'src/emit_x64.c emit_memcpy')], ['bytes of all objects after the accesses'])
prop('C08', 'Functions follow the Microsoft x64 calling convention',
 "Calls and function definitions interoperate with code of other compilers for Windows x64: arguments and results of every type and count (integers, floats, structs by value or hidden pointer, varargs), function pointers, stack alignment, shadow space and preserved registers follow the Microsoft x64 calling convention. This holds for calls in either direction.",
 ['programs', 'inputs'], 'all signatures and argument values, hlc code calling foreign code and foreign code calling hlc code',
 'Same-compiler tests are blind to a convention error made consistently on both sides, and signatures are unbounded.',
 ['src/emit_x64.c', 'src/parse.c'], [('call and prologue emission', 'src/emit_x64.c emit_call / function prologue')], ['values seen on either side of calls between hlc and clang objects'])
prop('C09', 'The preprocessor transforms text as the C standard prescribes',
 "For every input the preprocessed token sequence (object- and function-like and variadic macros, # and ##, __VA_ARGS__, rescanning and self-reference, conditionals, #include, line splices, comments, predefined macros such as __LINE__ and __FILE__) is the one the C preprocessor prescribes. Compiling sees exactly these tokens.",
 ['inputs', 'programs'], 'all well-formed preprocessing inputs',
 'Macro expansion order, blue paint and argument prescan interact; a list of examples does not decide them.',
 ['src/preprocess.c'], [('macro expansion and directives', 'src/preprocess.c expand_define / handle_directive'), ('/P output', 'src/main.c')], ['hlc /P /EP output; stringified and computed values at run time'])
prop('C10', 'Literals denote the values and types C gives them',
 "Every integer, floating, character and string literal (all bases, suffixes, prefixes, escapes, UTF-8 source characters, concatenation) has the type and value C prescribes, floating literals being correctly rounded. sizeof and contents of string literals are exact including embedded zeros.",
 ['inputs'], 'all literal spellings',
 'The space of spellings is unbounded and rounding errors need particular digits.',
 ['src/preprocess.c', 'src/parse.c'], [('literal parsing', 'src/parse.c parse_*_literal')], ['bit patterns, sizeof and _Generic type of literals'])
prop('C11', 'Order of file-scope declarations does not matter',
 "Reordering file-scope declarations and definitions, splitting them over several compilation units of one invocation and shuffling the internal schedule (/seed) does not change whether a program compiles nor what it computes. Types, functions, globals and enumerators may be used before their declaration, as the README promises.",
 ['programs', 'schedules'], 'all valid programs, all permutations of their declarations and all work-queue orders',
 'The resolver sleeps and wakes declarations; a defect needs a particular dependency graph and order.',
 ['src/main.c', 'src/parse.c'], [('sleeping and waking of declarations', 'src/main.c worker loop, sleep_on_decl / wake'), ('/seed shuffling', 'src/main.c')], ['run-time results of permuted programs'])
prop('C12', 'Output is deterministic and independent of threads',
 "Compiling the same inputs with the same options always gives the same outcome, and the program produced behaves the same for every /thread_count and work order. Errors reported, exit status and the behaviour and exported interface of the image do not depend on the schedule.",
 ['schedules', 'configurations'], 'all inputs, thread counts and interleavings of the compiler threads',
 'A single run sees one interleaving; races and order-dependent tables need many runs over many schedules.',
 ['src/main.c', 'src/windows.c'], [('work queues and threads', 'src/main.c work_queue / compiler threads')], ['exit status, diagnostics and behaviour over repeated runs'])
prop('C13', 'Programs split over files link to one meaning',
 "Definitions and uses of functions, globals, tentative definitions, statics, inline functions, types and enums spread over any number of files resolve as C linkage rules say: internal names stay private to their file, external names denote one object, tentative definitions merge. The result is the same as for separately compiled and linked objects.",
 ['programs'], 'all partitions of valid programs into compilation units',
 'Symbol resolution across units depends on combinations of linkage, order and number of files.',
 ['src/main.c', 'src/parse.c', 'src/coff_writer.c'], [('global declaration tables and linkage', 'src/main.c register_declaration / lookup'), ('tentative definitions', 'src/main.c')], ['run-time results, exit status for duplicates and undefined symbols'])
prop('C14', 'Executables and DLLs written are well-formed PE images',
 "Every image hlc writes is a PE32+ file that a strict loader accepts: headers, section bounds, alignments, import, export, relocation, TLS, debug and exception directories are consistent. Loading at any base with relocations applied yields the same behaviour, exports resolve to the named functions and data, and imports are bound to the right names.",
 ['programs', 'configurations'], 'all programs and image options (/dll, /image_base, /subsystem, /no_dynamic_base, sections, alignment), all load addresses',
 'The Windows loader tolerates some errors and tests load at the preferred address only.',
 ['src/coff_writer.c'], [('image writer', 'src/coff_writer.c')], ['bytes of the image; behaviour when loaded at other addresses'])
prop('C15', 'Object files and libraries link like the directly written image',
 "Linking the objects hlc writes with /obj by another linker gives the same program as hlc's own image; symbols, relocations, COMDAT and selectany data, thread-local data, dllimport/dllexport and directives in the object are valid COFF. Symbols are found in import and static libraries passed on the command line.",
 ['programs', 'configurations'], 'all programs compiled to objects, in every partition',
 'Relocation and symbol kinds multiply; tests link a handful of objects.',
 ['src/obj_writer.c', 'src/ar.c', 'src/coff_writer.c'], [('object writer', 'src/obj_writer.c'), ('archive reader', 'src/ar.c')], ['behaviour of the linked image, llvm-readobj view'])
prop('C16', 'Debug information describes the program truthfully',
 "With debug information enabled, the emitted PDB or CodeView data is well-formed and truthful: each function is listed with its address range, each code line maps to the source line it came from, and globals, locals, parameters and types have their right names, types, offsets and sizes. Turning debug information on or off does not change the generated code's behaviour.",
 ['programs'], 'all programs compiled with debug information',
 'The tests never read the debug information back.',
 ['src/coff_writer.c', 'src/obj_writer.c'], [('PDB writer', 'src/coff_writer.c'), ('CodeView in objects', 'src/obj_writer.c')], ['llvm-pdbutil / llvm-readobj dump compared with the source'])
prop('C17', 'Unwinding and structured exception handling work at every point',
 "At every call made by compiled code the unwind information restores the caller's stack pointer and preserved registers. __try/__except/__finally, __leave and exception filters run in the order and with the values the Microsoft semantics prescribe.",
 ['programs', 'fault_sequences'], 'all frame shapes and nestings of guarded regions, all points of failure',
 'Unwind information is only exercised by faults; tests raise very few.',
 ['src/emit_x64.c', 'src/coff_writer.c', 'src/parse.c'], [('unwind info emission', 'src/coff_writer.c .xdata/.pdata'), ('SEH scope tables', 'src/emit_x64.c')], ['state recovered by a virtual unwind; trace of handlers'])
prop('C18', 'Invalid programs are rejected with a located error',
 "A program that violates a rule hlc enforces (syntax, undeclared names, type mismatch, duplicate definitions, bad operands, false _Static_assert, unterminated constructs, bad directives) ends with exit status 1, an error naming the file and line of the offence, and no output file. A valid program compiles without error.",
 ['programs', 'inputs'], 'all single-fault mutations of valid programs, at any position',
 'There are unboundedly many positions and contexts in which a check may be forgotten.',
 ['src/parse.c', 'src/preprocess.c', 'src/diagnostic.c', 'src/main.c'], [('report_error', 'src/diagnostic.c'), ('type checks', 'src/parse.c')], ['exit status, error lines, absence of the output'])
prop('C19', 'No input makes the compiler crash, hang or assert',
 "For every sequence of input bytes and tokens hlc terminates with exit status 0 or 1, without an assertion, internal compiler error, invalid memory access or hang. A status of 1 comes with at least one error message.",
 ['inputs'], 'all input files up to a size, valid or not',
 'Crashes sit in unusual malformed inputs that nobody writes down as a test.',
 ['src/preprocess.c', 'src/parse.c', 'src/main.c', 'src/diagnostic.c'], [('tokenizer, parser, error recovery', 'src/preprocess.c, src/parse.c')], ['exit status and console output'])
prop('C20', 'The inline assembler encodes what is written',
 "Every instruction accepted in an __asm__ block or inline_asm function is encoded with the meaning of its mnemonic and operands: registers, sizes, immediates, memory operands with base, index, scale, displacement, locals and globals, labels and jumps. Forms it cannot encode are rejected.",
 ['programs', 'inputs'], 'all mnemonics the assembler knows with all operand combinations',
 'The mnemonic times operand-form table has thousands of entries.',
 ['src/parse_asm_block.c', 'src/emit_inline_asm_block.c'], [('operand parsing and instruction selection', 'src/parse_asm_block.c'), ('encoding', 'src/emit_inline_asm_block.c')], ['disassembly compared with llvm-mc'])
prop('C21', 'Intrinsics and atomics compute what they are documented to',
 "Every intrinsic in intrin headers that hlc implements (bit scans, rotates, byte swaps, wide multiply, SSE/AVX vector operations, interlocked operations, atomics) returns the value and has the side effects documented for it, for all operands. Atomic operations are indivisible.",
 ['inputs', 'schedules'], 'all operand values of all provided intrinsics',
 'Each intrinsic is a hand-written instruction sequence; tests try one value or none.',
 ['implicit/include/intrinsic.c', 'implicit/include/stdatomic.c', 'src/emit_x64.c'], [('intrinsics as inline_asm functions', 'implicit/include/intrinsic.c'), ('atomics', 'implicit/include/stdatomic.c')], ['logged results'])
prop('C22', 'Type-directed printing (printlike) formats every value correctly',
 "A call of a __declspec(printlike) function receives a format string and arguments that describe each argument with its own type: scalars, strings, enums, structs, nested aggregates, arrays and pointers print member by member with their names and values. Format strings given explicitly are passed on or expanded as documented.",
 ['programs', 'inputs'], 'all argument types and values',
 'The format is built from types; nested combinations are unbounded.',
 ['src/parse.c'], [('pretty-print string construction', 'src/parse.c handle_printlike_call / pretty_print')], ['format string and arguments received'])
prop('C23', 'Command line and start-up behave as documented',
 "Options given in any order, spelling (dash or slash, joined or separate values) and combination have their documented effect: outputs, include paths, defines, entry point, subsystem, errors as specified, exit status. A program's main receives exactly the arguments its command line denotes under the Windows rules and its return value is the exit status.",
 ['configurations', 'inputs'], 'all option combinations, all command line strings',
 'Combinations of options and quoting are unbounded.',
 ['src/cli.c', 'src/main.c', 'implicit'], [('option parsing', 'src/cli.c'), ('argv construction', 'implicit/pre_main.c')], ['files produced, arguments seen by main'])
prop('C24', 'Everything reachable is emitted, unreachable functions are not needed',
 "Every function and object reachable from entry point, exports or initialised data is present in the image and works, and undefined names that only unreachable functions mention do not make linking fail. Removing or adding unreachable code does not change the program's behaviour.",
 ['programs'], 'all reference graphs among functions and data, including address-taken and cyclic ones',
 'Reachability depends on the graph; tests have small ones.',
 ['src/main.c', 'src/parse.c'], [('dead function elimination', 'src/main.c')], ['behaviour and link success'])
prop('C25', 'The bundled runtime functions behave as the C library prescribes',
 "The memory and string functions, setjmp/longjmp and the other functions hlc supplies itself return what the C standard prescribes and touch exactly the bytes it allows, for all arguments. That includes overlapping moves, zero lengths, embedded and high bytes and unaligned addresses.",
 ['inputs'], 'all arguments within the functions\' preconditions',
 'The functions are loops over arbitrary data; boundary lengths and bytes matter.',
 ['implicit/include/runtime.c', 'implicit/include/setjmp.c'], [('runtime functions', 'implicit/include/runtime.c')], ['results and buffers'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(p) + '\n' for p in P))

import json,re,subprocess
P={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
head=open('/verif/DESIGN.md').read().split('## Properties')[0]
ROWS={
'C01':('integer, shift, bit-field, conversion and comparison expressions over every placement of operands (locals, globals, members, elements, pointees), plain and compound assignment, increments','clang -O0/-O1 for the same ABI (sequence points respected by construction)','30 s, 40k functions x 4-12 vectors','an operator/type/placement/register-pressure cell is one of tens of thousands'),
'C02':('float/double expressions, conversions to and from every integer type, comparisons, NaN/inf/denormals','clang -O0 (SSE semantics), NaNs compared as NaN','45 s','rounding and NaN cells, register spills of xmm'),
'C03':('nested loops, switches (sparse, 64-bit, duffs), gotos, short circuits, shadowed locals, statics, returns; traces of everything passed','clang','60 s','control-flow graphs combine'),
'C04':('constant expressions with a value from a model, evaluated in eleven constant contexts and at run time','Python model of C integer/float semantics + clang + metamorphic compile time = run time','38 s','folding is separate code from emission'),
'C05':('struct/union/bit-field/array types with packing and alignment; histories of #pragma pack push/pop/set with identifiers','clang\'s Microsoft layout (sizeof, offsets, bits found by probing)','28 s','layout rules interact'),
'C06':('initialisers with designators, nesting, brace elision, strings, relocations, in four storage classes; #embed with parameters (the reference gets the numbers)','clang','23 s','see C05'),
'C07':('histories of aggregate operations between guard bytes','clang -O0, all changed bytes','45-70 s','sizes x lvalue kinds x histories'),
'C08':('functions split between hlc and clang objects calling each other both ways, varargs, aggregates by value; the clang side clobbers everything volatile','clang on both sides, harness checks of rsp, non-volatiles, unwinding','50 s','positions x types x register pressure'),
'C09':('macro definitions/invocations/conditionals/includes, /P output','clang -E token sequences','24 s','rescanning rules'),
'C10':('literals next to rounding/type boundaries, escapes, encodings','clang + exact model','45 s','infinite literal space'),
'C11':('programs in permuted declaration order, partition into files, seeds, threads','clang on the ordered program; permutations of invalid programs must be rejected','26 s','the headerless guarantee quantifies over orders'),
'C12':('schedules: /thread_count, /seed, repetition','metamorphic: same outcome, same diagnostics, identical bytes single threaded','21 s','races'),
'C13':('multi-file programs with tentative definitions, statics, inline, selectany','clang + lld','25-38 s','linkage x partition'),
'C14':('images: data/functions/pointer tables/imports/exports/TLS (thread-local pointers and static locals too) under random options','strict PE reader of our own (vlib/pe.py) + values at four bases + rebased image equals relocated image','25-47 s','Windows tolerates or ignores many fields'),
'C15':('objects, mixed with clang objects, linked by lld; some with more relocations than 16 bits count','strict COFF reader (vlib/coff.py), lld without warnings, values at three bases, equality with hlc\'s own image','40-62 s','relocation x symbol kind x partition'),
'C16':('programs whose lines, scopes, variables and types are known: every line carries a number found again in the code; images and objects linked by lld','llvm-pdbutil reading the PDB, .pdata, addresses observed at run time, model of types and scopes; hash lookups; same behaviour without debug information','67 s','the tests never read the debug information'),
'C17':('exceptions under nested __try/__except in all kinds of statements, frames to 600K, stepping the virtual unwinder through every instruction','model of two-phase handling; implementation of the dispatcher in harness/unwind.h','20-45 s','unwind tables are only used when something throws'),
'C18':('rule violations put at random places, with valid twins','status/line/no output/twin compiles','30-39 s','rules x contexts'),
'C19':('mutated programs of all other generators, soups','ends with 0, or 1 and an error message, within 20 s','45 s, 48k cases','nobody writes down odd inputs'),
'C20':('assembler instructions with all operand forms; asm blocks in programs','llvm-mc (decoded equality) and clang\'s asm blocks','47-61 s','mnemonic x operand form table'),
'C21':('466 intrinsics and atomics on edge operands, threads','clang\'s implementation of the vector intrinsics, Python model of the others','33 s','each is hand written'),
'C22':('printlike calls and format strings','Python model of inference and of the argument list','28 s','format grammar x types'),
'C23':('command lines, response files, start-up code','documented effects; model of the Microsoft argument rules','33-44 s','options combine'),
'C24':('call graphs with unreachable parts, undefined names in and out of reach','model of the graph; metamorphic: adding dead code changes nothing','39-84 s','reachability is a graph property'),
'C25':('runtime library calls at page edges, setjmp histories','models compiled by clang','22 s','lengths x alignment x histories'),
}
o=[head.rstrip(),'','## Properties','',
'Per property: what is generated; the oracle; cost of the quick tier (8 jobs); why it reaches what the tests cannot. Thorough runs the same search with about 10-15 times the cases.',
'All generators draw sizes and values with weight on boundaries; bounds are those of the generators (programs of up to a few hundred lines; no claim beyond what was generated).','']
for k in sorted(P):
    if k in ROWS and ROWS[k][1]:
        a=ROWS[k]; o.append('* **%s %s.** %s. *Oracle:* %s. *Quick:* %s. *Beyond the tests:* %s. (`checks/%s.py`)'%(k,P[k]['title'],a[0][0].upper()+a[0][1:],a[1],a[2],a[3],k.lower()))
import os
rows=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d)); rows.append('* `%s` - %s: %s Needs %s.'%(d,m['property'],m['what_it_breaks'].rstrip('.')+'.',m['needs'].rstrip('.')))
tail=open('/verif/tools/design_tail.md').read().replace('SEEDED_TABLE','\n'.join(rows))
o.append(''); o.append(tail)
open('/verif/DESIGN.md','w').write('\n'.join(o))

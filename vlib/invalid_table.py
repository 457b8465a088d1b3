"""C18: rules hlc enforces. (name, place, invalid text, valid text)
places: expr (an int expression), stmt (a statement), decl (at file scope), any (a declaration at file scope or in a block), member (of a structure), pp (directive lines), top (only at file scope, last)
'@' is replaced by a number unique to the instance, '`' separates lines (an instance may also be put on several lines by the generator at white space)."""
T = []


def add(place, text):
    for l in text.strip().split('\n'):
        if l.strip():
            name, bad, good = [x.strip() for x in l.split('||')]
            T.append((name, place, bad, good))


# names in scope: int i, j; unsigned u; long long ll; double d; float f; struct S s, s2; struct S *ps; union U un; struct T t; int arr[4]; int *pi; void *pv; char *str; int (*fp)(int); enum E e; _Bool b; struct Inc *pinc
# int fi(int), void fv(void), int f2(int, char *), double fd(double), struct S fs(void), int fva(int, ...)
add('expr', '''
undeclared || und@ + 1 || i + 1
undeclared function || undf@(i, 2) || f2(i, str)
undeclared in call || fi(und@) || fi(u)
undeclared member || s.nomember@ || s.x
undeclared member of pointer || ps->nomember@ || ps->x
undeclared nested member || s.in.nomember@ || s.in.y
dot on int || i.x || s.x
arrow on int || i->x || ps->x
arrow on pointer to int || pi->x || ps->x
subscript of int || i[j] || arr[j]
subscript of struct || s[0] || pi[0]
subscript of void pointer || pv[1] || str[1]
deref of int || *i || *pi
deref of double || *d || *pi
deref of struct || *s || *ps->p
deref of void pointer || *pv == 0 || *pi == 0
deref of incomplete || pinc->x || ps->x
call of int || i(1) || fi(1)
call of struct || s(1) || fp(1)
call of pointer to int || pi(1) || fp(1)
too few arguments || f2(1) || f2(1, str)
too few arguments of a pointer || fp() || fp(2)
too few arguments of variadic || fva() || fva(1, 2)
too many arguments || fi(1, 2) || fi(1)
too many arguments of a pointer || fp(1, 2) || fp(1)
too many arguments of void function || (fv(1), 0) || (fv(), 0)
struct argument for int || fi(s) || fi(s.x)
int argument for struct || fst(i) || fst(s)
struct argument of wrong type || fst(t) || fst(s2)
pointer argument for double || (int)fd(pi) || (int)fd(*pi)
double argument for pointer || f2(1, d) || f2(1, str)
struct plus int || s + 1 || s.x + 1
struct comparison || s == s2 || s.x == s2.x
struct condition || s ? 1 : 2 || s.x ? 1 : 2
not of struct || !s || !s.x
minus of pointer || -pi || -*pi
minus of struct || -s || -s.x
complement of double || ~d || ~i
complement of pointer || ~pi || ~*pi
modulo of doubles || d % 2 || i % 2
modulo by double || i % d || i % j
shift of double || d << 1 || i << 1
shift by double || i >> f || i >> 1
shift by pointer || i << pi || i << *pi
and of double || d & 1 || i & 1
or of float || 1 \\| f || 1 \\| i
xor of pointer || pi ^ 1 || i ^ 1
times pointer || pi * 2 || *pi * 2
divide pointer || pi / 2 || *pi / 2
pointer plus pointer || (pi + pi) == 0 || (pi + i) == 0
pointer plus double || (pi + d) == 0 || (pi + 1) == 0
int minus pointer || (i - pi) == 0 || (pi - i) == 0
void pointer arithmetic || (pv + 1) == 0 || (str + 1) == 0
and with struct || s && i || s.x && i
or with struct || i \\|\\| s || i \\|\\| s.x
void operand || fv() + 1 || fi(1) + 1
void in condition || fv() ? 1 : 2 || fi(2) ? 1 : 2
void as argument || fi(fv()) || fi(fi(1))
address of literal || &5 == 0 || &i == 0
address of rvalue || &(i + 1) == 0 || &(i) == 0
address of call || &fi(1) == 0 || &fi == 0
increment of literal || 5++ || i++
increment of rvalue || (i + 1)++ || (i)++
increment of call || ++fi(1) || ++i
increment of struct || s++ || s.x++
increment of array || arr++ == 0 || pi++ == 0
increment of function || fi++ == 0 || i++ == 0
decrement of rvalue || --(i * 2) || --(i)
assign to literal || (5 = i) || (j = i)
assign to rvalue || (i + 1 = 2) || (i = 2)
assign to call || (fi(1) = 2) || (*pi = 2)
assign to array || (arr = 0) == 0 || (pi = 0) == 0
assign to function || (fi = 0) == 0 || (fp = 0) == 0
assign to enumerator || (EA = 2) || (e = 2)
assign struct to int || (i = s) || (i = s.x)
assign int to struct || (s = i, 1) || (s.x = i, 1)
assign other struct || (s = t, 1) || (s = s2, 1)
assign double to pointer || (pi = d) == 0 || (pi = 0) == 0
assign pointer to double || (d = pi) == 0 || (d = *pi) == 0
compound assign to rvalue || ((i + 1) += 2) || ((i) += 2)
compound modulo of double || (d %= 2, 1) || (i %= 2, 1)
compound shift of double || (d <<= 2, 1) || (i <<= 2, 1)
compound or of float || (f \\|= 2, 1) || (i \\|= 2, 1)
compound multiply of pointer || (pi *= 2) == 0 || (i *= 2) == 0
compound add pointer to pointer || (pi += pi) == 0 || (pi += 1) == 0
compound add to struct || (s += 1, 1) || (s.x += 1, 1)
cast struct to int || (int)s || (int)s.x
cast int to struct || ((struct S)i).x || ((struct S){i}).x
cast pointer to double || (int)(double)pi || (int)(double)*pi
cast double to pointer || (int *)d == 0 || (int *)pv == 0
cast to array || (int[3])pi == 0 || (int *)pi == 0
cast to function || (int(int))fp == 0 || (int(*)(int))fp == 0
cast of void || (int)fv() || (int)fi(1)
cast to other struct || ((struct S)t).x || ((struct S)s).x
cast to unknown type || (unk@)i || (int)i
conditional of struct and int || (i ? s : 1, 1) || (i ? s.x : 1, 1)
conditional of different structs || (i ? s : t, 1) || (i ? s : s2, 1)
sizeof of incomplete || (int)sizeof(struct Inc) || (int)sizeof(struct S)
sizeof of undeclared || (int)sizeof(und@) || (int)sizeof(i)
sizeof of void || (int)sizeof(void) || (int)sizeof(void *)
sizeof of function || (int)sizeof(fi) || (int)sizeof(fp)
alignof of void || (int)_Alignof(void) || (int)_Alignof(int)
generic without match || _Generic(s, int: 1, double: 2) || _Generic(i, int: 1, double: 2)
generic undeclared in selected || _Generic(i, int: und@, double: 2) || _Generic(i, int: 4, double: 2)
division by zero || i / 0 || i / 2
modulo by zero || i % 0 || i % 3
constant division by zero || 5 / 0 || 5 / 1
missing operand || i + || i + 1
missing operand of product || i * || i * 2
missing operand before || / i || 1 / i
missing close paren || (i + 1 || (i + 1)
missing conditional colon || (i ? 1) || (i ? 1 : 2)
missing conditional operand || (i ? : 2) || (i ? 1 : 2)
empty parentheses || () + i || (2) + i
two operands || i j || i * j
two literals || 1 2 || 1 + 2
missing argument || f2(, str) || f2(1, str)
trailing comma in call || fi(1, ) || fi((1, 2))
unclosed subscript || arr[1 || arr[1]
empty subscript || arr[] || arr[0]
missing member name || s. + 1 || s.x + 1
missing member name of pointer || ps-> || ps->x
keyword as operand || i + while || i + 1
type as operand || i + int || i + (int)1
bad integer suffix || 12abc || 12u
bad octal || 0129 || 0127
bad hexadecimal || 0xg || 0xa
bad floating suffix || (int)1.5q || (int)1.5f
empty character || '' || 'a'
lone backslash || i \\ j || i % 7
stray at sign || i $$ 1 || i + 1
compound literal too many || ((struct In){1, 2, 3, 4, 5}).y || ((struct In){1, 2}).y
compound literal unknown member || ((struct S){.nomember@ = 1}).x || ((struct S){.x = 1}).x
negative shift || i << -1 || i << 1
shift beyond width || i << 40 || i << 20
''')
add('stmt', '''
missing semicolon || i = 1 j = 2; || i = 1;
missing semicolon after call || fi(1) j = 2; || fi(1);
missing semicolon after declaration || int q@ = 1 j = 2; || int q@ = 1;
missing semicolon after return value || if (i) return 1 j = 2; || if (i) return 1;
stray close bracket || i = 1]; || i = 1;
stray close paren || i = 1); || i = (1);
missing paren after if || if i) j = 1; || if (i) j = 1;
unclosed paren of if || if (i j = 1; || if (i) j = 1;
empty condition || if () j = 1; || if (1) j = 1;
empty while condition || while () j = 1; || while (0) j = 1;
for with one semicolon || for (i = 0; i < 3) j = 1; || for (i = 0; i < 3; i++) j = 1;
for with three semicolons || for (i = 0; i < 3; i++;) j = 1; || for (i = 0; i < 3; i++) j = 1;
else without if || else j = 1; || if (i) ; else j = 1;
do without while || do { j = 1; } (0); || do { j = 1; } while (0);
do while without semicolon || do { j = 1; } while (0) i = 2; || do { j = 1; } while (0); i = 2;
struct if || if (s) j = 1; || if (s.x) j = 1;
struct while || while (s) break; || while (s.x) break;
struct for || for (; s; ) break; || for (; s.x; ) break;
struct do || do { j = 1; } while (s); || do { j = 1; } while (0);
void if || if (fv()) j = 1; || if (fi(1)) j = 1;
switch on double || switch (d) { case 1: j = 1; } || switch (i) { case 1: j = 1; }
switch on struct || switch (s) { case 1: j = 1; } || switch (s.x) { case 1: j = 1; }
switch on pointer || switch (pi) { case 1: j = 1; } || switch (*pi) { case 1: j = 1; }
duplicate case || switch (i) { case 1: j = 1; break; case 1: j = 2; } || switch (i) { case 1: j = 1; break; case 2: j = 2; }
duplicate case by value || switch (i) { case 2 + 2: j = 1; break; case 4: j = 2; } || switch (i) { case 2 + 2: j = 1; break; case 5: j = 2; }
duplicate case of enumerator || switch (e) { case EB: j = 1; break; case 1: j = 2; } || switch (e) { case EB: j = 1; break; case 2: j = 2; }
duplicate default || switch (i) { default: j = 1; break; default: j = 2; } || switch (i) { default: j = 1; break; case 1: j = 2; }
case not constant || switch (i) { case j: j = 1; } || switch (i) { case 3: j = 1; }
case call || switch (i) { case fi(1): j = 1; } || switch (i) { case (char)1: j = 1; }
case without colon || switch (i) { case 1 j = 1; } || switch (i) { case 1: j = 1; }
goto undefined label || goto nolabel@; || goto label@; label@: j = 1;
duplicate label || l@: j = 1; l@: j = 2; || l@: j = 1; lx@: j = 2;
goto without name || goto ; || goto m@; m@: ;
return without value || return ; || return 1;
return struct || if (i) return s; || if (i) return s.x;
redeclared local || int r@; int r@; || int r@; int rx@;
redeclared local with other type || int r@; double r@; || int r@; double rx@;
redeclared typedef as variable || typedef int td@; int td@; || typedef int td@; int tdx@;
unknown type || unk@ x@; || int x@;
unknown type with initialiser || unk@ x@ = 1; || long x@ = 1;
unknown structure || struct Unk@ x@; || struct S x@;
unknown structure initialised || struct Unk@ x@ = {0}; || struct S x@ = {0};
void variable || void x@; || void *x@;
array of void || void x@[3]; || void *x@[3];
negative array || int x@[-1]; || int x@[1];
array without size || int x@[]; || int x@[] = {1};
array size not constant || int x@[i]; || int x@[4];
array size double || int x@[2.5]; || int x@[2];
inner array without size || int x@[2][] = {{1}}; || int x@[][2] = {{1}};
initialise int with struct || int x@ = s; || int x@ = s.x;
initialise struct with int || struct S x@ = 5; || struct S x@ = s;
initialise struct with other struct || struct S x@ = t; || struct S x@ = s2;
initialise pointer with double || int *x@ = 1.5; || int *x@ = 0;
initialise double with pointer || double x@ = pi; || double x@ = *pi;
initialise array with int || int x@[3] = 5; || int x@[3] = {5};
initialise array with array || int x@[4] = arr; || int *x@ = arr;
too many initialisers || int x@[2] = {1, 2, 3}; || int x@[2] = {1, 2};
too many initialisers of struct || struct In x@ = {1, 2, 3, 4}; || struct In x@ = {1, 2};
string too long || char x@[2] = "abcdef"; || char x@[8] = "abcdef";
unknown designator || struct S x@ = {.nomember@ = 1}; || struct S x@ = {.x = 1};
designator out of range || int x@[2] = {[5] = 1}; || int x@[2] = {[1] = 1};
negative designator || int x@[2] = {[-1] = 1}; || int x@[2] = {[0] = 1};
member designator of array || int x@[2] = {.x = 1}; || int x@[2] = {[0] = 1};
index designator of struct || struct S x@ = {[0] = 1}; || struct S x@ = {.x = 1};
unclosed initialiser || int x@[2] = {1, 2; || int x@[2] = {1, 2};
static initialised by call || static int x@ = fi(1); || static int x@ = 1;
static initialised by variable || static int x@ = i; || static int x@ = 3;
extern initialised || extern int x@ = 1; || int x@ = 1;
two types || int double x@; || double x@;
two storage classes || static extern int x@; || static int x@;
short double || short double x@; || short int x@;
signed unsigned || signed unsigned x@; || unsigned x@;
long char || long char x@; || long int x@;
declaration without name || int = 4; || int w@ = 4;
declarator with number || int 4x@; || int x4@;
assertion fails || _Static_assert(sizeof(int) == 8, "m@"); || _Static_assert(sizeof(int) == 4, "m@");
assertion without message string || _Static_assert(1, 5); || _Static_assert(1, "5");
assertion not constant || _Static_assert(i, "m@"); || _Static_assert(4, "m@");
assertion of undeclared || _Static_assert(und@ == 1, "m@"); || _Static_assert(EB == 1, "m@");
assertion without paren || _Static_assert 1, "m@"; || _Static_assert(1, "m@");
assembler unknown instruction || __asm__{ frobnicate eax, 1 } || __asm__{ mov eax, 1 }
assembler wrong operands || __asm__{ mov eax, rbx } || __asm__{ mov eax, ebx }
assembler undeclared operand || __asm__{ mov eax, und@ } || __asm__{ mov eax, i }
assembler jump to nowhere || __asm__{ jnz .nolabel@ } || __asm__{ al@: jnz .al@ }
try without handler || __try { j = 1; } j = 2; || __try { j = 1; } __except (1) { j = 2; }
exception code outside || j = _exception_code(); || __try { j = 1; } __except (_exception_code() == 1) { j = 2; }
local function undeclared || int lf@(int a) { return a + und@; } || int lf@(int a) { return a + 1; }
enumerator not constant || enum le@ { LE@ = fi(1) }; || enum le@ { LE@ = 1 };
duplicate enumerator || enum le@ { LE@, LE@ }; || enum le@ { LE@, LF@ };
duplicate member || struct ls@ { int a, a; }; || struct ls@ { int a, b; };
duplicate member later || struct ls@ { int a; double c; char a; }; || struct ls@ { int a; double c; char b; };
bit-field of double || struct ls@ { double a : 3; }; || struct ls@ { int a : 3; };
bit-field too wide || struct ls@ { int a : 33; }; || struct ls@ { int a : 32; };
bit-field negative || struct ls@ { int a : -2; }; || struct ls@ { int a : 2; };
bit-field zero with name || struct ls@ { int a : 0; }; || struct ls@ { int a : 1; };
bit-field width not constant || struct ls@ { int a : i; }; || struct ls@ { int a : 4; };
member of void || struct ls@ { void a; }; || struct ls@ { void *a; };
member of unknown type || struct ls@ { unk@ a; }; || struct ls@ { int a; };
member of itself || struct ls@ { struct ls@ a; }; || struct ls@ { struct ls@ *a; };
member without semicolon || struct ls@ { int a }; || struct ls@ { int a; };
''')
add('decl', '''
undeclared in initialiser || int g@ = und@; || int g@ = EB;
undeclared type || unk@ g@; || int g@;
undeclared parameter type || int g@(unk@ a); || int g@(int a);
undeclared return type || unk@ g@(int a); || int g@(int a);
undeclared in function || int g@(int a) { return a + und@; } || int g@(int a) { return a + 1; }
undeclared in static function || static int g@(int a) { return a + und@; } || static int g@(int a) { return a + 1; }
parameter of other function || int g@(int a@) { return 1; } int h@(void) { return a@; } || int g@(int a@) { return 1; } int h@(int a@) { return a@; }
local of other function || int g@(void) { int lo@ = 1; return lo@; } int h@(void) { return lo@; } || int g@(void) { int lo@ = 1; return lo@; } int h@(void) { int lo@ = 2; return lo@; }
initialised by call || int g@ = fi(1); || int g@ = 1;
initialised by variable || int g@ = gi; || int *g@ = &gi;
initialised by struct || int g@ = gs; || int g@ = sizeof(gs);
redefined function || int g@(void) { return 1; } int g@(void) { return 2; } || int g@(void); int g@(void) { return 2; }
redefined variable || int g@ = 1; int g@ = 2; || int g@; int g@ = 2;
redefined with other type || int g@; double g@; || int g@; int g@;
redeclared function with other type || int g@(int); int g@(double); || int g@(int); int g@(int);
function and variable || int g@(int); int g@; || int g@(int); int h@;
variable and typedef || typedef int g@; int g@; || typedef int g@; g@ h@;
redefined typedef || typedef int g@; typedef double g@; || typedef int g@; typedef int g@;
redefined struct || struct g@ { int a; }; struct g@ { int b; }; || struct g@ { int a; }; struct h@ { int b; };
redefined enum || enum g@ { GA@ }; enum g@ { GB@ }; || enum g@ { GA@ }; enum h@ { GB@ };
struct as union || struct g@ { int a; }; union g@ h@; || struct g@ { int a; }; struct g@ h@;
struct as enum || struct g@ { int a; }; enum g@ h@; || struct g@ { int a; }; struct g@ h@;
redeclared enumerator || enum g@ { GA@ }; enum h@ { GA@ = 3 }; || enum g@ { GA@ }; enum h@ { GB@ = 3 };
enumerator and function || enum g@ { GA@ }; int GA@(void); || enum g@ { GA@ }; int GB@(void);
duplicate enumerator || enum g@ { GA@, GB@, GA@ }; || enum g@ { GA@, GB@, GC@ };
enumerator not constant || enum g@ { GA@ = gi }; || enum g@ { GA@ = 4 };
enumerator of double || enum g@ { GA@ = 1.5 }; || enum g@ { GA@ = 1 };
enum without brace || enum g@ GA@ }; || enum g@ { GA@ };
void variable || void g@; || void *g@;
void parameter || int g@(void a) { return 1; } || int g@(void *a) { return 1; }
array of void || void g@[2]; || void *g@[2];
array of functions || int g@[2](int); || int (*g@[2])(int);
function returning array || int g@(int)[2]; || int *g@(int);
function returning function || int g@(int)(int); || int (*g@(int))(int);
negative array || char g@[-3]; || char g@[3];
array size variable || char g@[gi]; || char g@[EB];
array size undeclared || char g@[und@]; || char g@[4];
array size double || char g@[3.5]; || char g@[3];
inner array unknown || int g@[2][]; || int g@[2][2];
extern of unknown struct || extern struct Unk@ g@; int h@(void) { return g@.a; } || extern struct S g@; int h@(void) { return (int)sizeof(g@); }
static extern || static extern int g@; || static int g@;
typedef initialised || typedef int g@ = 4; || typedef int g@;
too many initialisers || int g@[2] = {1, 2, 3}; || int g@[2] = {1, 2};
too many initialisers of struct || struct In g@ = {1, 2, 3}; || struct In g@ = {1, 2};
unknown designator || struct S g@ = {.nomember@ = 1}; || struct S g@ = {.x = 1};
designator out of range || int g@[2] = {[2] = 1}; || int g@[2] = {[1] = 1};
string too long || char g@[3] = "abcdef"; || char g@[7] = "abcdef";
string for int || int g@[3] = "ab"; || char g@[3] = "ab";
struct by int || struct S g@ = 5; || struct S g@ = {5};
function as default argument || int g@(int a = 5) { return a; } || int g@(int a) { return a; }
duplicate parameter || int g@(int a, int a) { return a; } || int g@(int a, int b) { return a; }
parameter redeclared || int g@(int a) { int a; return 0; } || int g@(int a) { { int a; } return 0; }
missing brace || int g@(int a) { if (a) { return 1; } || int g@(int a) { if (a) { return 1; } return 0; }
missing semicolon || int g@ int h@; || int g@; int h@;
missing semicolon after struct || struct g@ { int a; } int h@; || struct g@ { int a; }; int h@;
missing paren of parameters || int g@(int a { return a; } || int g@(int a) { return a; }
extra paren || int g@(int a)) { return a; } || int g@(int a) { return a; }
stray brace || } || ;
statement at file scope || gi = 4; || int g@ = 4;
call at file scope || fi(4); || int g@(int);
if at file scope || if (gi) gi = 2; || int g@(void) { if (gi) gi = 2; return 0; }
for at file scope || for (;;) ; || int g@(void) { for (;;) ; }
number at file scope || 42; || int g42@;
operator at file scope || + ; || int g@;
unterminated string || char *g@ = "abc; || char *g@ = "abc";
unterminated character || int g@ = 'a; || int g@ = 'a';
empty character || int g@ = ''; || int g@ = 'a';
bad escape || int g@ = '\\u12'; || int g@ = '\\x12';
missing operand || int g@ = 4 + ; || int g@ = 4 + 1;
unclosed paren || int g@ = (4 + 1; || int g@ = (4 + 1);
division by zero || int g@ = 4 / 0; || int g@ = 4 / 2;
assertion fails || _Static_assert(0, "m@"); || _Static_assert(1, "m@");
assertion fails with expression || _Static_assert(sizeof(struct S) == 1, "m@"); || _Static_assert(sizeof(struct S) != 1, "m@");
assertion of variable || _Static_assert(gi, "m@"); || _Static_assert(EB, "m@");
assertion without string || _Static_assert(1, 2); || _Static_assert(1, "2");
two types || int double g@; || double g@;
unsigned double || unsigned double g@; || unsigned int g@;
signed unsigned || signed unsigned int g@; || signed int g@;
three longs || long char g@; || long long g@;
alignment not a power of two || __declspec(align(3)) int g@; || __declspec(align(4)) int g@;
unknown declspec paren || __declspec(align(4) int g@; || __declspec(align(4)) int g@;
export of static || static __declspec(dllexport) int g@(void) { return 1; } || __declspec(dllexport) int g@(void) { return 1; }
static dllimport || static __declspec(dllimport) int g@(void); || __declspec(dllimport) int g@(void);
definition of dllimport || __declspec(dllimport) int g@ = 4; || int g@ = 4;
printlike without variadic || __declspec(printlike) int g@(char *f); || __declspec(printlike) int g@(char *f, ...);
printlike without format || __declspec(printlike) int g@(int f, ...); || __declspec(printlike) int g@(char *f, ...);
struct contains itself || struct g@ { int a; struct g@ b; }; || struct g@ { int a; struct g@ *b; };
mutual containment || struct g@ { struct h@ b; }; struct h@ { struct g@ a; }; || struct g@ { struct h@ b; }; struct h@ { struct g@ *a; };
typedef of itself || typedef g@ g@; || typedef int g@;
circular sizes || struct g@ { char a[sizeof(struct g@)]; }; || struct g@ { char a[sizeof(struct S)]; };
goto in other function || int g@(void) { la@: return 1; } int h@(void) { goto la@; } || int g@(void) { la@: return 1; } int h@(void) { la@: return 1; }
flexible array not last || struct g@ { int a[]; int b; }; || struct g@ { int b; int a[]; };
local static initialiser || int g@(int a) { static int b = a; return b; } || int g@(int a) { static int b = 1; return b; }
function in struct || struct g@ { int a(int); }; || struct g@ { int (*a)(int); };
duplicate member || union g@ { int a; double a; }; || union g@ { int a; double b; };
duplicate anonymous member || struct g@ { int a; struct { int a; }; }; || struct g@ { int a; struct { int b; }; };
''')
add('pp', '''
error directive || #error message @ || #define DUMMY@ message
unknown directive || #frobnicate @ || #pragma frobnicate
unterminated if || #if 1 || #if 1`#endif
unterminated ifdef || #ifdef UNDEF@ || #ifdef UNDEF@`#endif
endif without if || #endif || #if 0`#endif
else without if || #else || #if 1`#else`#endif
elif without if || #elif 1 || #if 0`#elif 1`#endif
else after else || #if 1`#else`#else`#endif || #if 1`#else`#endif
elif after else || #if 1`#else`#elif 1`#endif || #if 1`#elif 1`#else`#endif
if without expression || #if`#endif || #if 0`#endif
if with junk || #if 1 1`#endif || #if 1`#endif
if with missing operand || #if 1 +`#endif || #if 1 + 1`#endif
if with unclosed paren || #if (1`#endif || #if (1)`#endif
if with float || #if 1.5`#endif || #if 15`#endif
if with string || #if "a"`#endif || #if 'a'`#endif
if with assignment || #if A@ = 1`#endif || #if A@ == 1`#endif
if with division by zero || #if 1 / 0`#endif || #if 1 / 1`#endif
if with modulo by zero || #if 5 % (1 - 1)`#endif || #if 5 % (1 + 1)`#endif
if with missing colon || #if 1 ? 2`#endif || #if 1 ? 2 : 3`#endif
elif with junk || #if 0`#elif 1 1`#endif || #if 0`#elif 1`#endif
ifdef without name || #ifdef`#endif || #ifdef X@`#endif
ifndef with number || #ifndef 12`#endif || #ifndef X@`#endif
defined without name || #if defined()`#endif || #if defined(X@)`#endif
defined unclosed || #if defined(X@`#endif || #if defined(X@)`#endif
missing include || #include "nofile@.h" || #include "empty.h"
missing system include || #include <nofile@.h> || #include "empty.h"
include without name || #include || #include "empty.h"
include of unterminated name || #include "empty.h || #include "empty.h"
define without name || #define || #define X@
define number || #define 12 3 || #define X12@ 3
define defined || #define defined 3 || #define defined@ 3
define with bad parameters || #define X@(a b) a || #define X@(a, b) a
define with number parameter || #define X@(1) a || #define X@(a) a
define with unclosed parameters || #define X@(a, b || #define X@(a, b) a
define with ellipsis not last || #define X@(..., a) a || #define X@(a, ...) a
define with duplicate parameter || #define X@(a, a) a || #define X@(a, b) a
define hash without parameter || #define X@(a) #b || #define X@(a) #a
define paste at start || #define X@(a) ## a || #define X@(a) a ## a
define paste at end || #define X@(a) a ## || #define X@(a) a ## a
undef without name || #undef || #undef X@
undef number || #undef 4 || #undef X@
macro with too few arguments || #define X@(a, b) 1`int v@ = X@(1); || #define X@(a, b) 1`int v@ = X@(1, 2);
macro with too many arguments || #define X@(a) 1`int v@ = X@(1, 2); || #define X@(a) 1`int v@ = X@(1);
macro unclosed || #define X@(a) 1`int v@ = X@(1; || #define X@(a) 1`int v@ = X@(1);
macro expands to undeclared || #define X@(a) und@ + a`int v@ = X@(1); || #define X@(a) 1 + a`int v@ = X@(1);
macro expands to bad syntax || #define X@ 1 +`int v@ = X@; || #define X@ 1`int v@ = X@;
invalid paste || #define X@(a, b) a ## b`int v@ = X@(+, 1); || #define X@(a, b) a ## b`int v@ = X@(2, 1);
''')
T[:] = [tuple(x.replace('\\|', '|') for x in t) for t in T]
add('expr', r'''
arithmetic on function pointer || (fp + 1, 1) || (pi + 1, 1)
arithmetic on function pointer from the left || (1 + fp, 1) || (1 + pi, 1)
increment of function pointer || (fp++, 1) || (pi++, 1)
decrement of void pointer || (pv--, 1) || (pi--, 1)
prefix increment of void pointer || (++pv, 1) || (++pi, 1)
subscript of function pointer || (fp[1], 1) || (pi[1], 1)
cast to function type || ((int(int))fp, 1) || ((int(*)(int))fp, 1)
size of function type || sizeof(int(int)) || sizeof(int(*)(int))
size of unsized array type || sizeof(int[]) || sizeof(int[3])
size of void expression || sizeof(fv()) || sizeof(fi(1))
alignment of function || _Alignof(fi) || _Alignof(i)
alignment of void expression || _Alignof(fv()) || _Alignof(fi(1))
character constant of nine || 'abcdefghi' || 'a'
wide character constant of two || L'ab' || L'a'
char32 constant of two || U'ab' || U'a'
hex escape out of range || '\xfff' || '\xff'
hex escape without digits || '\xg' || '\xa'
octal escape out of range || '\777' || '\377'
unknown escape || '\q' || '\n'
short universal name || "\u12"[0] || "\u1234"[0]
incomplete binary || 0b || 0b1
incomplete hex || 0x || 0x1
bad octal digit || 089 || 077
bad hex suffix || 0x1xg || 0x1
bad float suffix || (int)1.5xyz || (int)1.5f
void variadic argument || fva(1, fv()) || fva(1, 2)
struct to the right of and || (i && s) || (i && s.x)
pointer plus assign pointer || (pi += pi, 1) || (pi += 1, 1)
abstract declarator with name || (int x@)i || (int)i
''')
add('stmt', r'''
string too long in braces || char z@[3] = {"abcdef"}; || char z@[3] = {"ab"};
string too long for member || struct { char a[3]; } z@ = {"abcdef"}; || struct { char a[3]; } z@ = {"ab"};
string for array of double || double z@[4] = "abc"; || char z@[4] = "abc";
string for array of pointer || int *z@[4] = "abc"; || char z@[4] = "abc";
initialised empty struct || struct { } z@ = { 1 }; || struct { int a; } z@ = { 1 };
alignas three || _Alignas(3) int z@; || _Alignas(4) int z@;
declspec align three || __declspec(align(3)) int z@; || __declspec(align(4)) int z@;
three longs || long long long z@; || long long z@;
struct int || struct S int z@; || struct S z@;
int struct || int struct S z@; || struct S z@;
enum struct || enum E struct S z@; || struct S z@;
double enum || double enum E z@; || enum E z@;
bad struct without name || struct 5 z@; || struct S z@;
bad enum without name || enum 5 z@; || enum E z@;
enum of struct tag || enum S z@; || struct S z@;
inline variable || inline int z@ = 1; || int z@ = 1;
noreturn variable || _Noreturn int z@; || int z@;
extern initialised in function || extern int z@ = 3; || int z@ = 3;
designator index too big || int z@[4] = {[0x100000000] = 1}; || int z@[4] = {[1] = 1};
exported local || __declspec(dllexport) int z@ = 1; || int z@ = 1;
extern of other type || extern double gi; || extern int gi;
''')
add('decl', r'''
exported static variable || static __declspec(dllexport) int z@ = 1; || __declspec(dllexport) int z@ = 1;
exported static function || static __declspec(dllexport) int z@(void) { return 1; } || __declspec(dllexport) int z@(void) { return 1; }
imported static variable || static __declspec(dllimport) int z@; || static int z@;
defined imported function || __declspec(dllimport) int z@(void) { return 1; } || int z@(void) { return 1; }
function in declarator list || int a@, z@(void) { return 1; } || int a@; int z@(void) { return 1; }
function name outside || char *z@ = __FUNCTION__; || char *z@ = "a";
address of thread local || _Thread_local int t@; int *z@ = &t@; || int t@; int *z@ = &t@;
array of too many bytes || int z@[0x80000000]; || int z@[0x800];
inline variable at file scope || inline int z@ = 1; || int z@ = 1;
thread local redeclared || _Thread_local int z@; int z@; || int z@; int z@;
alignas five at file scope || _Alignas(5) int z@; || _Alignas(8) int z@;
struct member without type || struct Z@ { a; }; || struct Z@ { int a; };
empty union tag || union 7; || union U;
bit-field too wide || struct Z@ { int a : 33; }; || struct Z@ { int a : 32; };
bit-field negative || struct Z@ { int a : -1; }; || struct Z@ { int a : 1; };
named bit-field of width zero || struct Z@ { int a : 0; }; || struct Z@ { int a : 1; };
bit-field of float || struct Z@ { float a : 3; }; || struct Z@ { int a : 3; };
bit-field of pointer || struct Z@ { int *a : 3; }; || struct Z@ { int a : 3; };
string in array of double || double z@[4] = "abc"; || char z@[4] = "abc";
enumerator out of range || enum Z@ { A@ = 0x100000000 }; || enum Z@ { A@ = 0x10000 };
initialised empty struct at file scope || struct { } z@ = { 1 }; || struct { int a; } z@ = { 1 };
''')
add('pp', r'''
pack of three || #pragma pack(3) || #pragma pack(4)
pack unclosed || #pragma pack(push, 4`#pragma pack(8) || #pragma pack(4)`#pragma pack(8)
include without quotes || #include abc || #include "empty.h"
include of missing file || #include "missing@.h" || #include "empty.h"
nullary macro with argument || #define Q@() 1`int q@ = Q@(1); || #define Q@() 1`int q@ = Q@();
embed of missing file || char q@[] = {`#embed "missing@.bin"`}; || char q@[] = {`1`};
embed too big || char q@[1] = {`#embed "empty.h"`}; || char q@[100] = {`#embed "empty.h"`};
embed into ints || int q@[100] = {`#embed "empty.h"`}; || char q@[100] = {`#embed "empty.h"`};
''')

# instructions and the operand kinds of the inline assembler (r = register, m = memory, i = immediate and its size in bytes; x, y = vector registers; l = label)
TABLE = [
    ('xgetbv', []),
    ('cpuid', []),
    ('rdtsc', []),
    ('rdtscp', []),
    ('int1', []),
    ('int3', []),
    ('ud2', []),
    ('ret', []),
    ('movsb', []),
    ('movsw', []),
    ('movsq', []),
    ('stosb', []),
    ('stosw', []),
    ('stosd', []),
    ('stosq', []),
    ('pause', []),
    ('jo', ['l']),
    ('jno', ['l']),
    ('jc', ['l']),
    ('jnc', ['l']),
    ('jz', ['l']),
    ('jnz', ['l']),
    ('jbe', ['l']),
    ('jnbe', ['l']),
    ('js', ['l']),
    ('jns', ['l']),
    ('jp', ['l']),
    ('jnp', ['l']),
    ('jl', ['l']),
    ('jnl', ['l']),
    ('jle', ['l']),
    ('jnle', ['l']),
    ('clflush', ['m1 m2 m4 m8']),
    ('int', ['i1']),
    ('inc', ['m1 m2 m4 m8 r1 r2 r4 r8']),
    ('dec', ['m1 m2 m4 m8 r1 r2 r4 r8']),
    ('neg', ['m1 m2 m4 m8 r1 r2 r4 r8']),
    ('div', ['m1 m2 m4 m8 r1 r2 r4 r8']),
    ('imul', ['m1 m2 m4 m8 r1 r2 r4 r8']),
    ('mul', ['m1 m2 m4 m8 r1 r2 r4 r8']),
    ('bswap', ['r4 r8']),
    ('seto', ['m1 r1']),
    ('setno', ['m1 r1']),
    ('setc', ['m1 r1']),
    ('setnc', ['m1 r1']),
    ('setz', ['m1 r1']),
    ('setnz', ['m1 r1']),
    ('setbe', ['m1 r1']),
    ('setnbe', ['m1 r1']),
    ('sets', ['m1 r1']),
    ('setns', ['m1 r1']),
    ('setp', ['m1 r1']),
    ('setnp', ['m1 r1']),
    ('setl', ['m1 r1']),
    ('setnl', ['m1 r1']),
    ('setle', ['m1 r1']),
    ('setnle', ['m1 r1']),
    ('cmovo', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovno', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovc', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovnc', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovz', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovnz', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovbe', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovnbe', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovs', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovns', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovp', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovnp', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovl', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovnl', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovle', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('cmovnle', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('mov', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 i2 i4 i8 m1 m2 m4 m8 r1 r2 r4 r8']),
    ('lea', ['r2 r4 r8', 'm1 m2 m4 m8']),
    ('movzx', ['r2 r4 r8', 'm1 m2 r1 r2']),
    ('movsx', ['r2 r4 r8', 'm1 m2 r1 r2']),
    ('movsxd', ['r4 r8', 'm4 r4']),
    ('xchg', ['m1 m2 m4 m8 r1 r2 r4 r8', 'm1 m2 m4 m8 r1 r2 r4 r8']),
    ('add', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 i2 i4 m1 m2 m4 m8 r1 r2 r4 r8']),
    ('or', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 i2 i4 m1 m2 m4 m8 r1 r2 r4 r8']),
    ('adc', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 i2 i4 m1 m2 m4 m8 r1 r2 r4 r8']),
    ('sbb', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 i2 i4 m1 m2 m4 m8 r1 r2 r4 r8']),
    ('and', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 i2 i4 m1 m2 m4 m8 r1 r2 r4 r8']),
    ('sub', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 i2 i4 m1 m2 m4 m8 r1 r2 r4 r8']),
    ('xor', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 i2 i4 m1 m2 m4 m8 r1 r2 r4 r8']),
    ('cmp', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 i2 i4 m1 m2 m4 m8 r1 r2 r4 r8']),
    ('rol', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 r1 r2 r4 r8']),
    ('ror', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 r1 r2 r4 r8']),
    ('rcl', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 r1 r2 r4 r8']),
    ('rcr', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 r1 r2 r4 r8']),
    ('shl', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 r1 r2 r4 r8']),
    ('shr', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 r1 r2 r4 r8']),
    ('sal', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 r1 r2 r4 r8']),
    ('sar', ['m1 m2 m4 m8 r1 r2 r4 r8', 'i1 r1 r2 r4 r8']),
    ('bt', ['m2 m4 m8 r2 r4 r8', 'i1 r2 r4 r8']),
    ('btr', ['m2 m4 m8 r2 r4 r8', 'i1 r2 r4 r8']),
    ('bts', ['m2 m4 m8 r2 r4 r8', 'i1 r2 r4 r8']),
    ('btc', ['m2 m4 m8 r2 r4 r8', 'i1 r2 r4 r8']),
    ('bsf', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('bsr', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('popcnt', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('lzcnt', ['r2 r4 r8', 'm2 m4 m8 r2 r4 r8']),
    ('xadd', ['m1 m2 m4 m8 r1 r2 r4 r8', 'r1 r2 r4 r8']),
    ('cmpxchg', ['m1 m2 m4 m8 r1 r2 r4 r8', 'r1 r2 r4 r8']),
    ('cmpxchg8b', ['m1 m2 m4 m8']),
    ('cmpxchg16b', ['m1 m2 m4 m8']),
    ('cmpps', ['x', 'm16 x', 'i1']),
    ('cmppd', ['x', 'm16 x', 'i1']),
    ('cmpsd', ['x', 'm8 x', 'i1']),
    ('cmpss', ['x', 'm4 x', 'i1']),
    ('cmpeqps', ['x', 'm16 x']),
    ('cmpltps', ['x', 'm16 x']),
    ('cmpleps', ['x', 'm16 x']),
    ('cmpunordps', ['x', 'm16 x']),
    ('cmpneqps', ['x', 'm16 x']),
    ('cmpnltps', ['x', 'm16 x']),
    ('cmpnleps', ['x', 'm16 x']),
    ('cmpordps', ['x', 'm16 x']),
    ('cmpeqss', ['x', 'm4 x']),
    ('cmpltss', ['x', 'm4 x']),
    ('cmpless', ['x', 'm4 x']),
    ('cmpunordss', ['x', 'm4 x']),
    ('cmpneqss', ['x', 'm4 x']),
    ('cmpnltss', ['x', 'm4 x']),
    ('cmpnless', ['x', 'm4 x']),
    ('cmpordss', ['x', 'm4 x']),
    ('cmpeqpd', ['x', 'm16 x']),
    ('cmpltpd', ['x', 'm16 x']),
    ('cmplepd', ['x', 'm16 x']),
    ('cmpunordpd', ['x', 'm16 x']),
    ('cmpneqpd', ['x', 'm16 x']),
    ('cmpnltpd', ['x', 'm16 x']),
    ('cmpnlepd', ['x', 'm16 x']),
    ('cmpordpd', ['x', 'm16 x']),
    ('cmpeqsd', ['x', 'm8 x']),
    ('cmpltsd', ['x', 'm8 x']),
    ('cmplesd', ['x', 'm8 x']),
    ('cmpunordsd', ['x', 'm8 x']),
    ('cmpneqsd', ['x', 'm8 x']),
    ('cmpnltsd', ['x', 'm8 x']),
    ('cmpnlesd', ['x', 'm8 x']),
    ('cmpordsd', ['x', 'm8 x']),
    ('orps', ['x', 'm16 x']),
    ('orpd', ['x', 'm16 x']),
    ('xorps', ['x', 'm16 x']),
    ('xorpd', ['x', 'm16 x']),
    ('andps', ['x', 'm16 x']),
    ('andpd', ['x', 'm16 x']),
    ('andnps', ['x', 'm16 x']),
    ('andnpd', ['x', 'm16 x']),
    ('addps', ['x', 'm16 x']),
    ('addss', ['x', 'm4 x']),
    ('addpd', ['x', 'm16 x']),
    ('addsd', ['x', 'm8 x']),
    ('subps', ['x', 'm16 x']),
    ('subss', ['x', 'm4 x']),
    ('subpd', ['x', 'm16 x']),
    ('subsd', ['x', 'm8 x']),
    ('mulps', ['x', 'm16 x']),
    ('mulss', ['x', 'm4 x']),
    ('mulpd', ['x', 'm16 x']),
    ('mulsd', ['x', 'm8 x']),
    ('divps', ['x', 'm16 x']),
    ('divss', ['x', 'm4 x']),
    ('divpd', ['x', 'm16 x']),
    ('divsd', ['x', 'm8 x']),
    ('rcpps', ['x', 'm16 x']),
    ('rcpss', ['x', 'm4 x']),
    ('sqrtps', ['x', 'm16 x']),
    ('sqrtss', ['x', 'm4 x']),
    ('sqrtpd', ['x', 'm16 x']),
    ('sqrtsd', ['x', 'm8 x']),
    ('minps', ['x', 'm16 x']),
    ('minss', ['x', 'm4 x']),
    ('minpd', ['x', 'm16 x']),
    ('minsd', ['x', 'm8 x']),
    ('maxps', ['x', 'm16 x']),
    ('maxss', ['x', 'm4 x']),
    ('maxpd', ['x', 'm16 x']),
    ('maxsd', ['x', 'm8 x']),
    ('rsqrtps', ['x', 'm16 x']),
    ('rsqrtss', ['x', 'm4 x']),
    ('haddps', ['x', 'm16 x']),
    ('haddpd', ['x', 'm16 x']),
    ('movss', ['m4 x', 'm4 x']),
    ('movsd', ['m8 x', 'm8 x']),
    ('movaps', ['m16 x', 'm16 x']),
    ('movups', ['m16 x', 'm16 x']),
    ('movapd', ['m16 x', 'm16 x']),
    ('movupd', ['m16 x', 'm16 x']),
    ('movhpd', ['m8 x', 'm8 x']),
    ('movlpd', ['m8 x', 'm8 x']),
    ('movhps', ['m8 x', 'm8 x']),
    ('movlps', ['m8 x', 'm8 x']),
    ('movntps', ['m16', 'x']),
    ('movntpd', ['m16', 'x']),
    ('movntdq', ['m16', 'x']),
    ('movnti', ['m4 m8', 'r4 r8']),
    ('movdqa', ['m16 x', 'm16 x']),
    ('movdqu', ['m16 x', 'm16 x']),
    ('movmskps', ['r4 r8', 'x']),
    ('movmskpd', ['r4 r8', 'x']),
    ('shufps', ['x', 'm16 x', 'i1']),
    ('shufpd', ['x', 'm16 x', 'i1']),
    ('pshufd', ['x', 'm16 x', 'i1']),
    ('ldmxcsr', ['m4']),
    ('stmxcsr', ['m4']),
    ('pshufhw', ['x', 'm16 x', 'i1']),
    ('pshuflw', ['x', 'm16 x', 'i1']),
    ('comiss', ['x', 'm4 x']),
    ('ucomiss', ['x', 'm4 x']),
    ('comisd', ['x', 'm8 x']),
    ('ucomisd', ['x', 'm8 x']),
    ('pxor', ['x', 'm16 x']),
    ('por', ['x', 'm16 x']),
    ('pand', ['x', 'm16 x']),
    ('pandn', ['x', 'm16 x']),
    ('packsswb', ['x', 'm16 x']),
    ('packuswb', ['x', 'm16 x']),
    ('packssdw', ['x', 'm16 x']),
    ('packusdw', ['x', 'm16 x']),
    ('unpcklps', ['x', 'm16 x']),
    ('unpcklpd', ['x', 'm16 x']),
    ('unpckhps', ['x', 'm16 x']),
    ('unpckhpd', ['x', 'm16 x']),
    ('punpcklbw', ['x', 'm16 x']),
    ('punpcklwd', ['x', 'm16 x']),
    ('punpckldq', ['x', 'm16 x']),
    ('punpcklqdq', ['x', 'm16 x']),
    ('punpckhbw', ['x', 'm16 x']),
    ('punpckhwd', ['x', 'm16 x']),
    ('punpckhdq', ['x', 'm16 x']),
    ('punpckhqdq', ['x', 'm16 x']),
    ('pmaddwd', ['x', 'm16 x']),
    ('paddb', ['x', 'm16 x']),
    ('paddw', ['x', 'm16 x']),
    ('paddd', ['x', 'm16 x']),
    ('paddq', ['x', 'm16 x']),
    ('paddsb', ['x', 'm16 x']),
    ('paddsw', ['x', 'm16 x']),
    ('paddusb', ['x', 'm16 x']),
    ('paddusw', ['x', 'm16 x']),
    ('psubsb', ['x', 'm16 x']),
    ('psubsw', ['x', 'm16 x']),
    ('psubusb', ['x', 'm16 x']),
    ('psubusw', ['x', 'm16 x']),
    ('pavgb', ['x', 'm16 x']),
    ('pavgw', ['x', 'm16 x']),
    ('psadbw', ['x', 'm16 x']),
    ('psubb', ['x', 'm16 x']),
    ('psubw', ['x', 'm16 x']),
    ('psubd', ['x', 'm16 x']),
    ('psubq', ['x', 'm16 x']),
    ('pmullw', ['x', 'm16 x']),
    ('pmulld', ['x', 'm16 x']),
    ('pmuludq', ['x', 'm16 x']),
    ('pmulhw', ['x', 'm16 x']),
    ('pmulhuw', ['x', 'm16 x']),
    ('psllw', ['x', 'i1 m16 x']),
    ('pslld', ['x', 'i1 m16 x']),
    ('psllq', ['x', 'i1 m16 x']),
    ('psrlw', ['x', 'i1 m16 x']),
    ('psrld', ['x', 'i1 m16 x']),
    ('psrlq', ['x', 'i1 m16 x']),
    ('psraw', ['x', 'i1 m16 x']),
    ('psrad', ['x', 'i1 m16 x']),
    ('psraq', ['x', 'i1 m16 x']),
    ('pslldq', ['x', 'i1']),
    ('psrldq', ['x', 'i1']),
    ('pcmpgtb', ['x', 'm16 x']),
    ('pcmpgtw', ['x', 'm16 x']),
    ('pcmpgtd', ['x', 'm16 x']),
    ('cvtdq2ps', ['x', 'm16 x']),
    ('cvtdq2pd', ['x', 'm16 x']),
    ('cvtps2dq', ['x', 'm16 x']),
    ('cvtpd2dq', ['x', 'm16 x']),
    ('cvttps2dq', ['x', 'm16 x']),
    ('cvttpd2dq', ['x', 'm16 x']),
    ('cvtpd2ps', ['x', 'm16 x']),
    ('cvtps2pd', ['x', 'm16 x']),
    ('cvtsi2ss', ['x', 'm4 m8 r4 r8']),
    ('cvtsi2sd', ['x', 'm4 m8 r4 r8']),
    ('cvtss2si', ['r4 r8', 'm4 x']),
    ('cvttss2si', ['r4 r8', 'm4 x']),
    ('cvtsd2si', ['r4 r8', 'm8 x']),
    ('cvttsd2si', ['r4 r8', 'm8 x']),
    ('cvtsd2ss', ['x', 'm8 x']),
    ('cvtss2sd', ['x', 'm4 x']),
    ('prefetch', ['i1', 'm1 m2 m4 m8']),
    ('movd', ['m4 r4 x', 'm4 r4 x']),
    ('movq', ['m8 r8 x', 'm8 r8 x']),
    ('movhlps', ['x', 'x']),
    ('movlhps', ['x', 'x']),
    ('sfence', []),
    ('lfence', []),
    ('mfence', []),
    ('pminub', ['x', 'm16 x']),
    ('pminuw', ['x', 'm16 x']),
    ('pmaxub', ['x', 'm16 x']),
    ('pmaxuw', ['x', 'm16 x']),
    ('pminsb', ['x', 'm16 x']),
    ('pminsw', ['x', 'm16 x']),
    ('pmaxsb', ['x', 'm16 x']),
    ('pmaxsw', ['x', 'm16 x']),
    ('pcmpeqb', ['x', 'm16 x']),
    ('pcmpeqw', ['x', 'm16 x']),
    ('pcmpeqd', ['x', 'm16 x']),
    ('pextrw', ['m2 r2 r4', 'x', 'i1']),
    ('pinsrw', ['x', 'm2 r2 r4', 'i1']),
    ('pmovmskb', ['r4 r8', 'x']),
    ('maskmovdqu', ['x', 'x']),
    ('palignr', ['x', 'm16 x', 'i1']),
    ('pshufb', ['x', 'm16 x']),
    ('ptest', ['x', 'm16 x']),
    ('pextrb', ['m1 r1 r4', 'x', 'i1']),
    ('pextrd', ['m4 r4', 'x', 'i1']),
    ('pextrq', ['m8 r8', 'x', 'i1']),
    ('pinsrb', ['x', 'm1 r1 r4', 'i1']),
    ('pinsrd', ['x', 'm4 r4', 'i1']),
    ('pinsrq', ['x', 'm8 r8', 'i1']),
    ('crc32', ['r4 r8', 'm1 m2 m4 m8 r1 r2 r4 r8']),
    ('pcmpistri', ['x', 'm16 x', 'i1']),
    ('pcmpestri', ['x', 'm16 x', 'i1']),
    ('aesdec', ['x', 'm16 x']),
    ('vmovups', ['m16 m32 x y', 'm16 m32 x y']),
    ('vmovdqu', ['m16 m32 x y', 'm16 m32 x y']),
    ('vmovdqa', ['m16 m32 x y', 'm16 m32 x y']),
    ('vaddps', ['x y', 'x y', 'm16 m32 x y']),
    ('vsubps', ['x y', 'x y', 'm16 m32 x y']),
    ('vmulps', ['x y', 'x y', 'm16 m32 x y']),
    ('vpminub', ['x y', 'x y', 'm16 m32 x y']),
    ('vpxor', ['x y', 'x y', 'm16 m32 x y']),
    ('vpshufb', ['x y', 'x y', 'm16 m32 x y']),
    ('vpcmpeqb', ['x y', 'x y', 'm16 m32 x y']),
    ('vblendps', ['x y', 'x y', 'm16 m32 x y', 'i1']),
    ('vshufps', ['x y', 'x y', 'm16 m32 x y', 'i1']),
    ('vperm2f128', ['y', 'y', 'm32 y', 'i1']),
    ('vinsertf128', ['y', 'y', 'm16 x', 'i1']),
    ('vmovss', ['x', 'm4 x']),
    ('vptest', ['x y', 'm16 m32 x y']),
    ('vpmovmskb', ['r4 r8', 'x y']),
    ('vmovd', ['m4 r4 x', 'm4 r4 x']),
    ('vmovq', ['m8 r8 x', 'm8 r8 x']),
    ('vpsllw', ['x', 'x', 'i1 m16 x']),
    ('vpslld', ['x', 'x', 'i1 m16 x']),
    ('vpsllq', ['x', 'x', 'i1 m16 x']),
    ('vpsrlw', ['x', 'x', 'i1 m16 x']),
    ('vpsrld', ['x', 'x', 'i1 m16 x']),
    ('vpsrlq', ['x', 'x', 'i1 m16 x']),
    ('vpsraw', ['x', 'x', 'i1 m16 x']),
    ('vpsrad', ['x', 'x', 'i1 m16 x']),
    ('vpsraq', ['x', 'x', 'i1 m16 x']),
    ('vpslldq', ['x', 'x', 'i1']),
    ('vpsrldq', ['x', 'x', 'i1']),
]

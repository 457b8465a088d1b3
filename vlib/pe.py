"""A strict reader of PE32+ images: everything a loader, debugger or unwinder relies on is checked"""
import struct


class PE:
    def __init__(self, data):
        self.d = data
        self.problems = []
        self.exports = {}
        self.imports = {}          # dll -> [name or ordinal]
        self.iat = {}              # rva -> (dll, name)
        self.relocs = []
        self.sections = []
        self.tls = None
        self.functions = []
        self.pdb = None
        try:
            self.parse()
        except (struct.error, IndexError, ValueError) as e:
            self.bad('a structure is cut off: %r' % (e,))

    def bad(self, t):
        if len(self.problems) < 8:
            self.problems.append(t)

    def need(self, c, t, *a):
        if not c:
            self.bad(t % a if a else t)
        return c

    def u(self, fmt, off):
        if off < 0:
            raise ValueError('negative offset')
        return struct.unpack_from('<' + fmt, self.d, off)

    def off(self, rva, n=1):
        """file offset of n bytes at the rva"""
        for s in self.sections:
            if s['va'] <= rva and rva + n <= s['va'] + min(s['raw'], (s['vs'] + 0xfff) & ~0xfff):
                return s['ptr'] + rva - s['va']
        raise ValueError('rva 0x%x (%d bytes) is not in the data of a section' % (rva, n))

    def section_of(self, rva):
        for s in self.sections:
            if s['va'] <= rva < s['va'] + max(s['vs'], 1):
                return s
        return None

    def cstr(self, rva):
        o = self.off(rva)
        e = self.d.index(b'\0', o)
        self.off(rva, e - o + 1)
        return self.d[o:e]

    def parse(self):
        d = self.d
        need = self.need
        if not need(d[:2] == b'MZ', 'no MZ header'):
            return
        pe = self.u('I', 0x3c)[0]
        need(pe % 8 == 0, 'PE header not aligned')
        if not need(d[pe:pe + 4] == b'PE\0\0', 'no PE signature'):
            return
        mach, ns, self.stamp, psym, nsym, osz, self.chars = self.u('HHIIIHH', pe + 4)
        need(mach == 0x8664, 'machine')
        need(osz == 240, 'size of the optional header %d', osz)
        need(self.chars & 2, 'not executable')
        need(psym == 0 and nsym == 0, 'symbol table in an image')
        o = pe + 24
        self.opt = o
        (magic, _, _, soc, soi, sou, self.entry, boc, self.base, self.salign, self.falign) = self.u('HBBIIIIIQII', o)
        need(magic == 0x20b, 'not PE32+')
        (osv, _, _, _, ssv, _, w32, self.size, self.hsize, csum, self.subsystem, self.dllchars, sr, scm, hr, hc, lf, nd) = self.u('HHHHHHIIIIHHQQQQII', o + 40)
        need(nd == 16, 'number of directories %d', nd)
        need(self.salign >= 4096 and self.salign & (self.salign - 1) == 0, 'section alignment')
        need(512 <= self.falign <= 65536 and self.falign & (self.falign - 1) == 0 and self.falign <= self.salign, 'file alignment')
        need(self.base % 65536 == 0, 'image base 0x%x not a multiple of 64K', self.base)
        need(self.hsize % self.falign == 0, 'size of headers')
        need(self.size % self.salign == 0, 'size of image not a multiple of the section alignment')
        need(w32 == 0 and lf == 0, 'reserved header fields')
        need(scm <= sr and hc <= max(hr, hc), 'stack commit exceeds reserve')
        need(ssv >= 4, 'subsystem version')
        self.dirs = [self.u('II', o + 112 + 8 * i) for i in range(16)]
        so = o + osz
        need(so + 40 * ns <= self.hsize, 'section headers exceed the headers')
        need(self.hsize <= len(d), 'headers exceed the file')
        next_va = (self.hsize + self.salign - 1) // self.salign * self.salign
        next_raw = self.hsize
        names = set()
        for i in range(ns):
            name = self.u('8s', so + 40 * i)[0].rstrip(b'\0').decode('latin-1')
            vs, va, raw, ptr, prel, plin, nrel, nlin, ch = self.u('IIIIIIHHI', so + 40 * i + 8)
            s = dict(name=name, vs=vs, va=va, raw=raw, ptr=ptr, ch=ch)
            self.sections.append(s)
            need(name not in names, 'two sections %s', name)
            names.add(name)
            need(vs > 0, 'section %s has no size', name)
            need(va == next_va, 'section %s at 0x%x instead of 0x%x', name, va, next_va)
            next_va = va + (max(vs, raw if ptr else 0) + self.salign - 1) // self.salign * self.salign
            need(raw % self.falign == 0, 'raw size of section %s', name)
            if raw:
                need(ptr % self.falign == 0, 'file offset of section %s', name)
                need(ptr == next_raw, 'data of section %s at 0x%x instead of 0x%x', name, ptr, next_raw)
                next_raw = ptr + raw
                need(ptr + raw <= len(d), 'section %s exceeds the file', name)
                need(raw < vs + self.falign, 'raw size of section %s exceeds its virtual size', name)
            else:
                need(ch & 0x80, 'section %s has no data but is not uninitialised', name)
            need(not prel and not plin and not nrel and not nlin, 'relocations in section header %s', name)
            need(not (ch & 0x80000000 and ch & 0x20000000), 'section %s is writable and executable', name)
            need(ch & 0x40000000, 'section %s is not readable', name)
            want = {'.text': 0x60000020, '.rdata': 0x40000040, '.data': 0xC0000040, '.bss': 0xC0000080, '.reloc': 0x42000040, '.pdata': 0x40000040}.get(name)
            need(want is None or ch | 0x02000000 == want | 0x02000000, 'characteristics 0x%x of section %s', ch, name)
            need(want is not None or True, '')
        need(self.size == next_va, 'size of image 0x%x instead of 0x%x', self.size, next_va)
        need(next_raw == len(d), 'the file has 0x%x bytes, the sections end at 0x%x', len(d), next_raw)
        sec = {s['name']: s for s in self.sections}
        if self.entry:
            s = self.section_of(self.entry)
            need(s and s['ch'] & 0x20000000, 'the entry point is not in code')
        for i, (rva, sz) in enumerate(self.dirs):
            if rva or sz:
                if i == 4:
                    continue
                need(rva and sz, 'directory %d has no address or size', i)
                self.off(rva, sz)
        self.parse_exports()
        self.parse_imports()
        self.parse_relocs()
        self.parse_tls()
        self.parse_pdata()
        self.parse_debug()

    def parse_exports(self):
        need = self.need
        rva, sz = self.dirs[0]
        if not rva:
            return
        need(sz >= 40, 'size of the export directory')
        fl, ts, maj, mi, name, base, nf, nn, af, an, ao = self.u('IIHHIIIIIII', self.off(rva, 40))
        need(fl == 0, 'export flags')
        self.dll_name = self.cstr(name)
        need(nf >= nn, 'more names than exports')
        addr = self.u('%dI' % nf, self.off(af, 4 * nf))
        names = self.u('%dI' % nn, self.off(an, 4 * nn))
        ords = self.u('%dH' % nn, self.off(ao, 2 * nn))
        last = None
        for n, o in zip(names, ords):
            s = self.cstr(n)
            need(last is None or last < s, 'the exported names %r and %r are not in order', last, s)
            last = s
            if need(o < nf, 'ordinal of %r', s):
                need(self.section_of(addr[o]), 'export %r is at 0x%x, outside the sections', s, addr[o])
                need(not rva <= addr[o] < rva + sz, 'export %r points into the export directory (a forwarder)', s)
                self.exports[s.decode('latin-1')] = addr[o]

    def parse_imports(self):
        need = self.need
        rva, sz = self.dirs[1]
        if not rva:
            return
        need(sz % 20 == 0 and sz >= 40, 'size of the import directory')
        iat, iatsz = self.dirs[12]
        n = 0
        while True:
            need(20 * n + 20 <= sz, 'the import directory has no terminator')
            lk, ts, fw, nm, fa = self.u('IIIII', self.off(rva + 20 * n, 20))
            n += 1
            if not nm and not fa and not lk:
                break
            need(lk and nm and fa, 'import descriptor with empty fields')
            dll = self.cstr(nm).decode('latin-1')
            need(dll.lower() not in [x.lower() for x in self.imports], 'two import descriptors for %s', dll)
            l = self.imports[dll] = []
            need(fa % 8 == 0 and lk % 8 == 0, 'import tables not aligned')
            k = 0
            while True:
                a = self.u('Q', self.off(lk + 8 * k, 8))[0]
                b = self.u('Q', self.off(fa + 8 * k, 8))[0]
                need(a == b, 'import lookup and address tables of %s differ', dll)
                need(not iat or iat <= fa + 8 * k < iat + iatsz, 'an import address table is outside its directory')
                if not a:
                    break
                if a >> 63:
                    need(a & ~(1 << 63) < 65536, 'ordinal import with high bits')
                    name = a & 0xffff
                else:
                    need(a < 1 << 31, 'import by name with high bits')
                    need(a % 2 == 0, 'hint/name entry not aligned')
                    name = self.cstr(a + 2).decode('latin-1')
                need(name not in l, '%s!%s imported twice', dll, name)
                l.append(name)
                self.iat[fa + 8 * k] = (dll, name)
                k += 1
            need(l, 'no imports from %s', dll)
        need(20 * n == sz, 'the import directory has entries after its terminator')

    def parse_relocs(self):
        need = self.need
        rva, sz = self.dirs[5]
        if not rva:
            return
        p = rva
        while p < rva + sz:
            page, bs = self.u('II', self.off(p, 8))
            need(page % 4096 == 0, 'relocation page 0x%x', page)
            if not need(bs >= 8 and bs % 4 == 0 and p + bs <= rva + sz, 'relocation block of %d bytes', bs):
                return
            need(bs > 8, 'empty relocation block')
            for e in self.u('%dH' % ((bs - 8) // 2), self.off(p + 8, bs - 8) if bs > 8 else 0):
                t, o = e >> 12, e & 0xfff
                if t == 0:
                    need(o == 0, 'padding relocation with an offset')
                    continue
                if need(t == 10, 'relocation type %d', t):
                    self.relocs.append(page + o)
            p += bs
        need(len(set(self.relocs)) == len(self.relocs), 'an address is relocated twice')
        s = sorted(self.relocs)
        for a, b in zip(s, s[1:]):
            need(b - a >= 8, 'overlapping relocations at 0x%x and 0x%x', a, b)
        for a in s:
            v = self.u('Q', self.off(a, 8))[0]
            need(self.base <= v <= self.base + self.size, 'the relocated value 0x%x at 0x%x is no address in the image', v, a)

    def parse_tls(self):
        need = self.need
        rva, sz = self.dirs[9]
        if not rva:
            return
        need(sz == 40, 'size of the TLS directory %d', sz)
        a, b, idx, cb, zf, ch = self.u('QQQQII', self.off(rva, 40))
        need(a <= b, 'TLS data ends before it starts')
        need(a % 16 == 0 or True, '')
        s = self.section_of(a - self.base)
        need(s and (a == b or self.section_of(b - 1 - self.base) is s), 'TLS data outside the sections')
        s = self.section_of(idx - self.base)
        need(s and s['ch'] & 0x80000000, 'the TLS index is not in writable memory')
        for k in range(4):
            v = self.u('Q', self.off(rva + 8 * k, 8))[0]
            need((rva + 8 * k in self.relocs) == bool(v) or self.chars & 1 or not self.dllchars & 0x40, 'TLS directory field %d is not relocated', k)
        self.tls = (a - self.base, b - self.base, idx - self.base, zf, ch)

    def parse_pdata(self):
        need = self.need
        rva, sz = self.dirs[3]
        if not rva:
            return
        need(sz % 12 == 0, 'size of the exception directory')
        last = 0
        for i in range(sz // 12):
            a, b, u = self.u('III', self.off(rva + 12 * i, 12))
            need(a >= last and b > a, 'function table entry %d: 0x%x..0x%x after 0x%x', i, a, b, last)
            last = b
            s = self.section_of(a)
            need(s and s['ch'] & 0x20000000 and b <= s['va'] + s['vs'], 'function table entry outside the code')
            need(u % 4 == 0, 'unwind information not aligned')
            vf, pro, cnt, fr = self.u('BBBB', self.off(u, 4))
            need(vf & 7 in (1, 2), 'unwind version')
            need(pro <= b - a, 'prologue longer than the function')
            o = self.off(u + 4, 2 * cnt) if cnt else 0
            codes = self.u('%dH' % cnt, o) if cnt else ()
            k, prev = 0, 255
            while k < cnt:
                off, op, info = codes[k] & 255, codes[k] >> 8 & 15, codes[k] >> 12
                need(off <= prev and off <= pro, 'unwind codes out of order')
                prev = off
                n = {0: 1, 1: 2 if info == 0 else 3, 2: 1, 3: 1, 4: 2, 5: 3, 8: 2, 9: 3, 10: 1}.get(op)
                if not need(n is not None, 'unwind code %d', op):
                    break
                need(op != 1 or info < 2, 'unwind code with info %d', info)
                k += n
            need(k == cnt, 'the last unwind code is cut off')
            if vf >> 3 & 3:
                h = self.u('I', self.off(u + 4 + 2 * (cnt + cnt % 2), 4))[0]
                s = self.section_of(h)
                need(s and s['ch'] & 0x20000000, 'exception handler outside the code')
            self.functions.append((a, b))

    def parse_debug(self):
        need = self.need
        rva, sz = self.dirs[6]
        if not rva:
            return
        need(sz % 28 == 0, 'size of the debug directory')
        for i in range(sz // 28):
            ch, ts, maj, mi, t, dsz, drva, dptr = self.u('IIHHIIII', self.off(rva + 28 * i, 28))
            need(ch == 0, 'debug directory')
            if t == 2:
                need(self.off(drva, dsz) == dptr, 'address and file offset of the debug data differ')
                sig, guid, age = self.u('4s16sI', dptr)
                need(sig == b'RSDS', 'signature of the debug data')
                p = self.d[dptr + 24:dptr + dsz]
                need(p.endswith(b'\0') and p.count(b'\0') == 1, 'PDB path in the debug data')
                self.pdb = (guid, age, p[:-1].decode('latin-1'))

    def rebased(self, base):
        """the mapped contents after relocation, without the header fields for base and time"""
        m = bytearray(self.size)
        m[:self.hsize] = self.d[:self.hsize]
        for s in self.sections:
            n = min(s['vs'], s['raw'])
            m[s['va']:s['va'] + n] = self.d[s['ptr']:s['ptr'] + n]
        for r in self.relocs:
            v = struct.unpack_from('<Q', m, r)[0]
            struct.pack_into('<Q', m, r, (v + base - self.base) & (2 ** 64 - 1))
        pe = self.opt - 24
        struct.pack_into('<I', m, pe + 8, 0)
        struct.pack_into('<Q', m, self.opt + 24, 0)
        return bytes(m)

"""A strict reader of x64 COFF objects"""
import struct


class Coff:
    def __init__(self, d):
        self.d = d
        self.problems = []
        self.sections = []
        self.symbols = []
        self.directives = ''
        try:
            self.parse()
        except (struct.error, IndexError, ValueError, UnicodeDecodeError) as e:
            self.need(False, 'a structure is cut off: %r' % (e,))

    def need(self, c, t, *a):
        if not c and len(self.problems) < 8:
            self.problems.append(t % a if a else t)
        return c

    def parse(self):
        d, need = self.d, self.need
        u = lambda f, o: struct.unpack_from('<' + f, d, o)
        m, ns, ts, ps, nsym, osz, ch = u('HHIIIHH', 0)
        need(m == 0x8664, 'machine')
        need(osz == 0, 'optional header in an object')
        need(ps + 18 * nsym + 4 <= len(d), 'the symbol table exceeds the file')
        st = ps + 18 * nsym
        stn = u('I', st)[0]
        need(stn >= 4 and st + stn <= len(d), 'string table of %d bytes at 0x%x in a file of %d', stn, st, len(d))

        def name(raw):
            if raw[:4] == b'\0\0\0\0':
                o = struct.unpack('<I', raw[4:])[0]
                need(4 <= o < stn, 'name outside the string table')
                e = d.index(b'\0', st + o)
                return d[st + o:e].decode('latin-1')
            return raw.rstrip(b'\0').decode('latin-1')
        spans = [(0, 20 + 40 * ns, 'headers'), (ps, st + stn, 'symbols')]
        for i in range(ns):
            o = 20 + 40 * i
            vs, va, raw, ptr, prel, plin, nrel, nlin, sch = u('IIIIIIHHI', o + 8)
            n = name(d[o:o + 8])
            need(vs == 0 and va == 0, 'section %s has an address', n)
            need(nlin == 0, 'line numbers')
            s = dict(name=n, raw=raw, ptr=ptr, ch=sch, rel=[], data=b'')
            self.sections.append(s)
            if sch & 0x80:
                need(ptr == 0, 'uninitialised section %s has data', n)
            else:
                need(ptr + raw <= len(d), 'section %s exceeds the file', n)
                s['data'] = d[ptr:ptr + raw]
                if raw:
                    spans.append((ptr, ptr + raw, n))
            cnt = nrel
            first = 0
            if sch & 0x01000000:
                need(nrel == 0xffff, 'relocation overflow flag without overflow')
                cnt = u('I', prel)[0]
                first = 1
            if cnt:
                spans.append((prel, prel + 10 * cnt, 'relocations of ' + n))
            for k in range(first, cnt):
                s['rel'].append(u('IIH', prel + 10 * k))
            if n == '.drectve':
                self.directives = s['data'].decode('latin-1')
                need(sch & 0xa00 == 0xa00, 'flags of .drectve')
        spans.sort()
        for a, b in zip(spans, spans[1:]):
            need(a[1] <= b[0], '%s and %s overlap in the file', a[2], b[2])
        i = 0
        index = {}
        defined = {}
        leader = {}
        while i < nsym:
            o = ps + 18 * i
            raw, val, sec, typ, cls, aux = struct.unpack_from('<8sIhHBB', d, o)
            n = name(raw)
            index[i] = (n, val, sec, cls)
            need(-2 <= sec <= ns, 'section number %d of %s', sec, n)
            need(i + aux < nsym + 0 or aux == 0, 'auxiliary records exceed the table')
            if sec > 0:
                s = self.sections[sec - 1]
                need(val <= s['raw'], 'symbol %s outside its section', n)
            if cls == 2 and sec > 0:
                need(n not in defined, 'symbol %s is defined twice', n)
                defined[n] = sec
                if sec in leader and leader[sec] == '':
                    leader[sec] = n
            if cls == 3 and aux and sec > 0 and val == 0 and n == self.sections[sec - 1]['name']:
                ln, nr, nl, cs, num, sel = struct.unpack_from('<IHHIHB', d, o + 18)
                s = self.sections[sec - 1]
                need(ln == s['raw'], 'the section symbol %s has length %d, the section %d', n, ln, s['raw'])
                if s['ch'] & 0x1000:
                    need(1 <= sel <= 6, 'COMDAT selection %d', sel)
                    if sel != 5:
                        leader[sec] = ''
            self.symbols.append((n, val, sec, cls))
            i += 1 + aux
        for k, v in leader.items():
            need(v, 'COMDAT section %d has no symbol', k)
        und = {n for n, v, s, c in self.symbols if c == 2 and s == 0 and v == 0}
        need(not und & set(defined), 'symbols defined and undefined: %r', und & set(defined))
        for s in self.sections:
            seen = []
            for va, sym, t in s['rel']:
                size = {0: 0, 1: 8, 2: 4, 3: 4, 4: 4, 5: 4, 6: 4, 7: 4, 8: 4, 9: 4, 10: 2, 11: 4}.get(t)
                if not need(size is not None, 'relocation type %d in %s', t, s['name']):
                    continue
                need(va + size <= s['raw'], 'relocation at 0x%x outside %s', va, s['name'])
                need(sym in index, 'relocation against symbol %d, which is no symbol', sym)
                seen.append((va, va + size))
            seen.sort()
            for a, b in zip(seen, seen[1:]):
                need(a[1] <= b[0], 'overlapping relocations in %s at 0x%x', s['name'], b[0])
        self.defined = defined
        self.undefined = und

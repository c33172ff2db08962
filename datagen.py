"""Generates well-formed Unicode data files other than the vendored ones (C24).

A set of data files is the vendored one with a list of operations applied and
every file that the library's generators read written anew in some layout.
The same model gives the tables of the reference models, so that nothing of
the repository's generators is used as oracle."""
import os, random, re, struct, tarfile

N = 0x110000
HERE = os.path.dirname(os.path.abspath(__file__))
GCB = ['Other', 'CR', 'LF', 'Control', 'Extend', 'ZWJ', 'Regional_Indicator', 'Prepend', 'SpacingMark', 'L', 'V', 'T', 'LV', 'LVT']
WB = ['Other', 'CR', 'LF', 'Newline', 'Extend', 'ZWJ', 'Regional_Indicator', 'Format', 'Katakana', 'Hebrew_Letter', 'ALetter', 'Single_Quote', 'Double_Quote',
      'MidNumLet', 'MidLetter', 'MidNum', 'Numeric', 'ExtendNumLet', 'WSegSpace']
SB = ['Other', 'CR', 'LF', 'Extend', 'Sep', 'Format', 'Sp', 'Lower', 'Upper', 'OLetter', 'Numeric', 'ATerm', 'SContinue', 'STerm', 'Close']
LB = ['AL', 'BK', 'CR', 'LF', 'NL', 'SP', 'ZW', 'ZWJ', 'CM', 'WJ', 'GL', 'BA', 'HY', 'BB', 'EX', 'CL', 'CP', 'IS', 'SY', 'OP', 'QU', 'NS', 'B2', 'CB', 'IN', 'HL', 'NU',
      'PR', 'PO', 'ID', 'EB', 'EM', 'JL', 'JV', 'JT', 'H2', 'H3', 'RI']
LBRAW = ['XX'] + LB + ['AI', 'SG', 'SA', 'CJ']
BC = ['L', 'R', 'AL', 'EN', 'ES', 'ET', 'AN', 'CS', 'NSM', 'BN', 'B', 'S', 'WS', 'ON', 'LRE', 'LRO', 'RLE', 'RLO', 'PDF', 'LRI', 'RLI', 'FSI', 'PDI']
GC = ['Cn', 'Cc', 'Cf', 'Co', 'Cs', 'Ll', 'Lm', 'Lo', 'Lt', 'Lu', 'Mc', 'Me', 'Mn', 'Nd', 'Nl', 'No', 'Pc', 'Pd', 'Pe', 'Pf', 'Pi', 'Po', 'Ps', 'Sc', 'Sk', 'Sm', 'So',
      'Zl', 'Zp', 'Zs']
EAW = ['N', 'A', 'F', 'H', 'Na', 'W']
BOOL = ['No', 'Yes']
VAL = dict(gcb=GCB, wb=WB, sb=SB, lb=LBRAW, bc=BC, gc=GC, eaw=EAW, ext=BOOL, cased=BOOL, cign=BOOL)
FILES = dict(gcb='GraphemeBreakProperty.txt', wb='WordBreakProperty.txt', sb='SentenceBreakProperty.txt', lb='LineBreak.txt', bc='DerivedBidiClass.txt',
             eaw='EastAsianWidth.txt')
READ = list(FILES.values()) + ['emoji-data.txt', 'DerivedCoreProperties.txt', 'UnicodeData.txt', 'SpecialCasing.txt', 'BidiBrackets.txt', 'BidiMirroring.txt']
# never reassigned: controls and separators (their roles are fixed), surrogates
FIXED = [(0, 0x1F), (0x7F, 0x9F), (0x2028, 0x2029), (0xD800, 0xDFFF)]


def rng(s):
    a, _, b = s.partition('..')
    return int(a, 16), int(b or a, 16)


class Base:
    """the vendored Unicode 15.0.0 data"""
    def __init__(self):
        t = tarfile.open(os.path.join(HERE, 'ucd.tar.xz'))
        self.raw = {f: t.extractfile('ucd/' + f).read().decode('utf-8').splitlines() for f in READ}
        self.arr = {k: bytearray(N) for k in VAL}
        miss = {'Left_To_Right': 'L', 'Right_To_Left': 'R', 'Arabic_Letter': 'AL', 'European_Terminator': 'ET'}
        for l in self.raw['DerivedBidiClass.txt']:
            m = re.match(r'#\s*@missing:\s*([0-9A-F.]+)\s*;\s*(\w+)', l)
            if m:
                a, b = rng(m.group(1))
                self.arr['bc'][a:b + 1] = bytes([BC.index(miss[m.group(2)])]) * (b - a + 1)
        self.missing_bc = bytes(self.arr['bc'])
        self.missing_cuts = {m.start() for m in re.finditer(rb'(?s)(.)\1*', self.missing_bc)}
        for k, f in FILES.items():
            ix = {v: i for i, v in enumerate(VAL[k])}
            for a, b, v in self.lines(f):
                self.arr[k][a:b + 1] = bytes([ix[v]]) * (b - a + 1)
        for k, f, name in (('ext', 'emoji-data.txt', 'Extended_Pictographic'), ('cased', 'DerivedCoreProperties.txt', 'Cased'), ('cign', 'DerivedCoreProperties.txt', 'Case_Ignorable')):
            for a, b, v in self.lines(f):
                if v == name:
                    self.arr[k][a:b + 1] = b'\1' * (b - a + 1)
        self.other = {f: [(a, b, v) for a, b, v in self.lines(f) if v not in ('Extended_Pictographic', 'Cased', 'Case_Ignorable')]
                      for f in ('emoji-data.txt', 'DerivedCoreProperties.txt')}
        self.case, self.decomp, self.single, self.ranges = {}, {}, [], []
        self.name = {}
        first = 0
        for l in self.raw['UnicodeData.txt']:
            f = l.split(';')
            c = int(f[0], 16)
            g = GC.index(f[2])
            if f[1].endswith(', First>'):
                first = c
                continue
            if f[1].endswith(', Last>'):
                self.arr['gc'][first:c + 1] = bytes([g]) * (c - first + 1)
                self.ranges.append((first, c))
                continue
            self.arr['gc'][c] = g
            self.single.append(c)
            self.name[c] = f
            if f[12] or f[13] or f[14]:
                self.case[c] = tuple(int(f[i], 16) if f[i] else None for i in (12, 13, 14))
            if f[5]:
                self.decomp[c] = f[5]
        self.special, self.cond = {}, []
        for l in self.raw['SpecialCasing.txt']:
            f = [x.strip() for x in l.split('#')[0].split(';')]
            if len(f) < 4:
                continue
            if len(f) > 4 and f[4]:
                self.cond.append(f[:5])
            else:
                self.special[int(f[0], 16)] = tuple([int(x, 16) for x in f[i].split()] for i in (1, 2, 3))
        self.mirror = {int(a, 16): int(b, 16) for a, b in ([x.strip() for x in l.split('#')[0].split(';')] for l in self.raw['BidiMirroring.txt'] if l.split('#')[0].strip())}
        self.bracket = {}
        for l in self.raw['BidiBrackets.txt']:
            f = [x.strip() for x in l.split('#')[0].split(';')]
            if len(f) >= 3:
                self.bracket[int(f[0], 16)] = (int(f[1], 16), f[2])

    def lines(self, f):
        for l in self.raw[f]:
            l = l.split('#')[0]
            if l.strip():
                x = [y.strip() for y in l.split(';')]
                a, b = rng(x[0])
                yield a, b, x[1]


class Model:
    """the vendored data with operations applied"""
    def __init__(self, base, ops):
        self.b = base
        self.arr = {k: bytearray(v) for k, v in base.arr.items()}
        self.case, self.special, self.mirror = dict(base.case), dict(base.special), dict(base.mirror)
        self.bracket, self.decomp = dict(base.bracket), dict(base.decomp)
        self.ops, self.fmt, self.full, self.hot = ops, 0, False, set()
        for o in ops:
            getattr(self, 'do_' + o[0])(*o[1:])
        self.normalise()

    def touch(self, *cps):
        for c in cps:
            for d in (c - 1, c, c + 1):
                if 0 <= d < N and not 0xD800 <= d < 0xE000:
                    self.hot.add(d)

    def parts(self, lo, hi):
        """[lo, hi] without the fixed code points"""
        todo = [(lo, hi)]
        for a, b in FIXED:
            nxt = []
            for l, h in todo:
                if h < a or l > b:
                    nxt.append((l, h))
                    continue
                if l < a:
                    nxt.append((l, a - 1))
                if h > b:
                    nxt.append((b + 1, h))
            todo = nxt
        return todo

    # --- operations
    def do_set(self, k, lo, hi, v):
        for a, b in self.parts(lo, hi):
            self.arr[k][a:b + 1] = bytes([VAL[k].index(v)]) * (b - a + 1)
            self.touch(a, b, (a + b) // 2)
            for x in (a | 0xFF, b & ~0xFF):
                if a <= x <= b:
                    self.touch(x)

    def do_alt(self, k, lo, hi, vals, seed):
        r = random.Random(seed)
        ix = bytes(VAL[k].index(v) for v in vals)
        for a, b in self.parts(lo, hi):
            self.arr[k][a:b + 1] = bytes(r.choices(ix, k=b - a + 1))
            for _ in range(24):
                self.touch(r.randint(a, b))
            self.touch(a, b)

    def do_default(self, lo, hi):
        """the bidirectional classes of characters that are not listed"""
        for a, b in self.parts(lo, hi):
            self.arr['bc'][a:b + 1] = self.b.missing_bc[a:b + 1]
            self.touch(a, b)

    def do_assign(self, lo, hi, gc):
        for a, b in self.parts(lo, hi):
            for c in range(a, b + 1):
                if self.arr['gc'][c] == 0:
                    self.arr['gc'][c] = GC.index(gc)
            self.touch(a, b)

    def do_case(self, c, u, l, t):
        if u is None and l is None and t is None:
            self.case.pop(c, None)
        else:
            self.case[c] = (u, l, t)
        self.touch(c, *[x for x in (u, l, t) if x])

    def do_special(self, c, l, t, u):
        if l:
            self.special[c] = (l, t, u)
        else:
            self.special.pop(c, None)
        self.touch(c)

    def do_mirror(self, a, b):
        for x, y in ((a, b), (b, a)):
            self.mirror.pop(self.mirror.pop(x, None), None)
        self.mirror[a], self.mirror[b] = b, a
        self.touch(a, b)

    def do_nomirrors(self):
        self.touch(*self.mirror)
        self.mirror = {}

    def do_unmirror(self, a):
        self.mirror.pop(self.mirror.pop(a, None), None)
        self.touch(a)

    def do_bracket(self, o, c):
        if o not in self.bracket and c not in self.bracket and o not in self.decomp and c not in self.decomp:
            self.bracket[o], self.bracket[c] = (c, 'o'), (o, 'c')
            self.touch(o, c)

    def do_alias(self, o, c, canon):
        """o and c become brackets canonically equivalent to canon and its partner"""
        if canon in self.bracket and self.bracket[canon][1] == 'o' and canon not in self.decomp:
            p = self.bracket[canon][0]
            if o not in self.bracket and c not in self.bracket and p not in self.decomp:
                self.bracket[o], self.bracket[c] = (c, 'o'), (o, 'c')
                self.decomp[o], self.decomp[c] = '%04X' % canon, '%04X' % p
                self.touch(o, c, canon, p)

    def do_unbracket(self, o):
        """with its partner and whatever is equivalent to one of them"""
        if o not in self.bracket:
            return
        p = self.bracket[o][0]
        for x in list(self.bracket):
            if self.canon(x) in (self.canon(o), self.canon(p)):
                self.bracket.pop(x)
        self.touch(o, p)

    def do_fmt(self, seed):
        self.fmt = seed

    def do_full(self):
        """write UnicodeData.txt in full (slow to generate the tables from)"""
        self.full = True

    # --- what makes the data well-formed
    def normalise(self):
        a = self.arr
        # every code point with a mapping, a decomposition or a bracket is an assigned character of its own line
        own = set(self.b.single)
        inrange = lambda c: any(x <= c <= y for x, y in self.b.ranges)
        for d in (self.case, self.special, self.bracket):
            for c in list(d):
                if c in own:
                    continue
                if inrange(c) or any(x <= c <= y for x, y in FIXED):
                    d.pop(c)
                elif a['gc'][c] == 0:
                    a['gc'][c] = GC.index('Lu' if d is not self.bracket else 'Ps')
        for c in list(self.bracket):
            if c not in self.bracket or self.bracket[c][0] not in self.bracket:
                self.bracket.pop(c, None)
        for c in self.bracket:
            a['bc'][c] = BC.index('ON')
        # Extended_Pictographic code points have Grapheme_Cluster_Break Other, Word_Break
        # Other or ALetter; the unassigned ones have Line_Break ID
        ext = int.from_bytes(a['ext'], 'little')
        def where(k, keep):
            t = bytes(0 if i in keep else 1 for i in range(256))
            return int.from_bytes(a[k].translate(t), 'little')
        bad = ext & (where('gcb', [0]) | where('wb', [0, WB.index('ALetter')]) | (int.from_bytes(a['gc'].translate(bytes([1]) + bytes(255)), 'little') & where('lb', [LBRAW.index('ID')])))
        a['ext'] = bytearray((ext & ~bad).to_bytes(N, 'little'))
        # default bidirectional classes are those of code points that are not listed
        self.title = {c: (t if t is not None else u) for c, (u, l, t) in self.case.items()}

    def canon(self, c):
        while c in self.decomp and not self.decomp[c].startswith('<') and ' ' not in self.decomp[c]:
            c = int(self.decomp[c], 16)
        return c

    # --- the tables of the reference models
    def tables(self):
        a = self.arr
        lb = bytearray(N)
        m = list(range(256))
        for i, v in enumerate(LBRAW):
            m[i] = LB.index({'XX': 'AL', 'AI': 'AL', 'SG': 'AL', 'SA': 'AL', 'CJ': 'NS'}.get(v, v))
        lb = bytearray(a['lb'].translate(bytes(m)))
        sa, mn = LBRAW.index('SA'), (GC.index('Mn'), GC.index('Mc'))
        for r in re.finditer(b'(?s)' + re.escape(bytes([sa])) + b'+', bytes(a['lb'])):
            for c in range(r.start(), r.end()):
                if a['gc'][c] in mn:
                    lb[c] = LB.index('CM')
        I = lambda x: int.from_bytes(x, 'little')
        wide = bytes(1 if i < len(EAW) and EAW[i] in 'FWH' else 0 for i in range(256))
        fl = I(a['cased']) | I(a['cign']) << 1 | I(a['ext']) << 2 | I(a['gc'].translate(bytes([1]) + bytes(255))) << 3 | I(a['eaw'].translate(wide)) << 4
        out = [b'VPUCD1\n\0', a['gcb'], a['wb'], a['sb'], lb, a['bc'], fl.to_bytes(N, 'little')]
        def lst(d):
            out.append(struct.pack('<I', len(d)))
            for c in sorted(d):
                out.append(struct.pack('<II', c, d[c]))
        lst({c: v[1] for c, v in self.case.items() if v[1] is not None})
        lst({c: v for c, v in self.title.items() if v is not None})
        lst({c: v[0] for c, v in self.case.items() if v[0] is not None})
        lst(self.mirror)
        lst({c: (1 << 24 | self.canon(c)) if t == 'o' else (2 << 24 | self.canon(p)) for c, (p, t) in self.bracket.items()})
        for i in range(3):
            out.append(struct.pack('<I', len(self.special)))
            for c in sorted(self.special):
                v = self.special[c][i]
                out.append(struct.pack('<5I', c, len(v), *(v + [0, 0])[:3]))
        hot = sorted(self.hot)
        if len(hot) > 6000:
            hot = sorted(random.Random(1).sample(hot, 6000))
        out.append(struct.pack('<%dI' % (len(hot) + 1), len(hot), *hot))
        return b''.join(bytes(x) for x in out)

    # --- the data files
    def runs(self, *keys):
        """maximal runs over which all these properties are constant"""
        cuts = set()
        for k in keys:
            for m in re.finditer(rb'(?s)(.)\1*', bytes(self.arr[k])):
                cuts.add(m.start())
        if 'bc' in keys:  # where the default changes
            cuts |= self.b.missing_cuts
        cuts = sorted(cuts) + [N]
        return [(cuts[i], cuts[i + 1] - 1) for i in range(len(cuts) - 1)]

    def layout(self, r, entries, comment, gcs=True):
        """entries: (lo, hi, value) -> lines"""
        style = r.randrange(5)
        sep = [' ; ', ';', '; ', '          ; ', ' ;'][r.randrange(5)]
        order = r.randrange(3)
        e = []
        split = r.choice([0, 0, 0, 8, 40])
        for lo, hi, v in entries:
            while split and hi > lo and r.randrange(split) == 0:  # the same data in more lines
                mid = r.randint(lo, min(hi - 1, lo + 0x300))
                e.append((lo, mid, v))
                lo = mid + 1
            e.append((lo, hi, v))
        if order == 1:
            e.sort(key=lambda x: (x[2], x[0]))
        elif order == 2:
            r.shuffle(e)
        out = [] if r.randrange(4) == 0 else ['# Some-File-16.0.0.txt', '# Date: 2024-01-01', '#', '', '# @missing: 0000..10FFFF; Other', '# ' + '=' * 40, '']
        last = None
        for lo, hi, v in e:
            if order == 1 and v != last and r.randrange(2):
                out += ['', '# ' + '=' * 48, '']
                last = v
            s = '%04X' % lo if lo == hi and r.randrange(50) else '%04X..%04X' % (lo, hi)
            if style == 1:
                s = s.ljust(13)
            s += sep + v
            if comment or style != 2:
                s += [' # ', '# ', '  #  '][0 if style < 3 else style - 2]
                s += GC[self.arr['gc'][lo]] + [' ', '  ', '       '][r.randrange(3)]
                if lo != hi:
                    s += '[%d] ' % (hi - lo + 1)
                s += r.choice(['LATIN SMALL LETTER A', 'X', 'L ; OP # CM', '\u00e9\u4e00', 'Y' * r.choice([3, 3, 3, 490, 520, 1100, 3000] + [5000, 20000, 70000] * (r.randrange(100) == 0)), '(a..b)'])
            elif r.randrange(3) == 0:
                s += ' ' * r.randrange(1, 4)
            out.append(s)
            if r.randrange(200) == 0:
                out.append(r.choice(['', '#', '# EOF', '#0041;L']))
        return out

    def write(self, d):
        for name in READ:
            r = random.Random('%d %s' % (self.fmt, name))
            out = self.text(name, r)
            if r.randrange(5) == 0:
                out = self.lower(name, out, r)
            s = '\n'.join(out)
            if r.randrange(4):
                s += '\n' + r.choice(['', '# EOF\n', '\n\n'])
            with open(os.path.join(d, name), 'w', encoding='utf-8', newline='\n') as f:
                f.write(s)

    def lower(self, name, out, r):
        """some code points in lower case"""
        n = {'UnicodeData.txt': (0, 5, 12, 13, 14), 'SpecialCasing.txt': (0, 1, 2, 3), 'BidiMirroring.txt': (0, 1), 'BidiBrackets.txt': (0, 1)}.get(name, (0,))
        for j, l in enumerate(out):
            if l and l[0] != '#' and r.randrange(3) == 0:
                f = l.split(';')
                for i in n:
                    if '<' not in f[i] and '#' not in f[i]:
                        f[i] = f[i].lower()
                out[j] = ';'.join(f)
        return out

    def text(self, name, r):
        a = self.arr
        for k, f in FILES.items():
            if f == name:
                comment = k in ('lb', 'eaw')
                e = []
                for lo, hi in self.runs(k, 'gc') if comment else self.runs(k):
                    v = a[k][lo]
                    if k == 'bc':
                        # may be left out where it is the default
                        if r.randrange(4) and bytes(a[k][lo:hi + 1]) == self.b.missing_bc[lo:hi + 1]:
                            continue
                    elif v == 0 and (k not in ('lb', 'eaw') or a['gc'][lo] == 0 or r.randrange(2)):
                        continue
                    e.append((lo, hi, VAL[k][v]))
                return self.layout(r, e, comment)
        if name in ('emoji-data.txt', 'DerivedCoreProperties.txt'):
            e = [x for x in self.b.other[name] if r.randrange(4) == 0]
            for k, v in (('ext', 'Extended_Pictographic'),) if name[0] == 'e' else (('cased', 'Cased'), ('cign', 'Case_Ignorable')):
                e += [(lo, hi, v) for lo, hi in self.runs(k) if a[k][lo]]
            if name[0] == 'D':
                e += [(lo, hi, 'InCB; Linker') for lo, hi in ((0x94D, 0x94D), (0x9CD, 0x9CD))]
            return self.layout(r, e, False)
        if name == 'UnicodeData.txt':
            out = []
            base = self.b.name
            want = set(self.case) | set(self.bracket) | set(self.decomp) | set(self.special)
            if self.full:
                want |= set(base)
            want |= set(c for c in base if r.randrange(50) == 0)
            for c in sorted(c for c in want if c in base or a['gc'][c]):
                f = list(base.get(c) or ['%04X' % c, 'SOME CHARACTER', '', '0', 'L', '', '', '', '', 'N', '', '', '', '', ''])
                f[2] = GC[a['gc'][c]]
                f[5] = self.decomp.get(c, '')
                for i in range(3):
                    v = self.case.get(c, (None,) * 3)[i]
                    f[12 + i] = '' if v is None else '%04X' % v
                out.append(';'.join(f))
            for lo, hi in self.b.ranges:
                for x, y in ((lo, 'First'), (hi, 'Last')):
                    out.append('%04X;<Some Range, %s>;%s;0;L;;;;;N;;;;;' % (x, y, GC[a['gc'][lo]]))
            out.sort(key=lambda s: int(s.split(';')[0], 16))
            if r.randrange(4) == 0:  # white space that means nothing
                out = [s + ' ' if r.randrange(3) == 0 else s for s in out]
            return out
        if name == 'SpecialCasing.txt':
            out = ['# SpecialCasing-16.0.0.txt', '#', '']
            e = [(c, '; '.join(['%04X' % c] + [' '.join('%04X' % x for x in self.special[c][i]) for i in range(3)]) + ';') for c in sorted(self.special)]
            e += [(int(f[0], 16), '; '.join(f) + ';') for f in self.b.cond]
            if r.randrange(2):
                r.shuffle(e)
            return out + [s + r.choice([' # LATIN SMALL', ' # LATIN SMALL', '', ' ', '  # X', '# X']) for _, s in e]
        if name == 'BidiMirroring.txt':
            e = sorted(self.mirror.items())
            if r.randrange(2):
                r.shuffle(e)
            return ['# BidiMirroring', '', ''] + ['%04X; %04X' % x + r.choice([' # X', ' # X', '', ' ', '# X']) for x in e] + ['', '# 2140; DOUBLE-STRUCK N-ARY SUMMATION']
        if name == 'BidiBrackets.txt':
            e = sorted(self.bracket.items())
            if r.randrange(3) == 0:
                r.shuffle(e)
            return ['# BidiBrackets', ''] + ['%04X; %04X; %s' % (c, p, t) + r.choice([' # X', ' # X', '', ' ', '# X']) for c, (p, t) in e] + ['', '# EOF']
        raise ValueError(name)


def plan(base, seed, i):
    """the operations of data set i"""
    if i == 0:
        return [['fmt', seed], ['full']]  # the vendored data in another layout
    r = random.Random('%d/%d' % (seed, i))
    ops = [['fmt', r.randrange(1 << 30)]]
    edges = [0x20, 0x41, 0xA0, 0xFF, 0x100, 0x2FF, 0x300, 0x5D0, 0x1FFF, 0x2000, 0x3000, 0x4E00, 0xABFF, 0xD7FF, 0xE000, 0xF8FF, 0xFFFD, 0xFFFF, 0x10000, 0x100FF, 0x1F600,
             0x1FFFF, 0x20000, 0xE0000, 0xFFFFF, 0x100000, 0x10FEFF, 0x10FF00, 0x10FFFE, 0x10FFFF]
    assigned = [c for c in base.single if not any(a <= c <= b for a, b in FIXED)]

    def cp():
        k = r.randrange(6)
        if k == 0:
            return r.choice(edges)
        if k == 1:
            return r.randrange(0x1100) << 8 | r.choice([0, 0xFF])
        if k == 2:
            return r.randrange(0x20, 0x10000)
        if k == 3:
            return r.randrange(0x110000)
        return r.choice(assigned)

    def ch():  # a character that may get mappings
        while True:
            c = cp() if r.randrange(4) == 0 else r.choice(assigned)
            if not any(a <= c <= b for a, b in FIXED + base.ranges) and c != 0x3A3:
                return c

    def span():
        lo = cp()
        n = r.choice([1, 1, 2, r.randrange(1, 30), r.randrange(1, 300), 256, 512, r.randrange(1, 0x3000)])
        if r.randrange(4) == 0:
            return max(0, lo - n + 1), lo
        return lo, min(N - 1, lo + n - 1)

    plain = lambda: r.choice([c for c in (r.choice(assigned) for _ in range(20)) if c not in base.decomp and c not in base.bracket and c not in base.case])
    kind = i % 6
    props = ['gcb', 'wb', 'sb', 'lb', 'bc', 'eaw', 'ext', 'cased', 'cign']
    if kind in (1, 2, 4) or r.randrange(2):
        for _ in range(r.choice([1, 3, 10, 40])):
            k = r.choice(props)
            lo, hi = span()
            ops.append(['set', k, lo, hi, r.choice([v for v in VAL[k] if v not in ('CR', 'LF', 'SG')])])
    if kind in (2, 5):
        for _ in range(r.choice([1, 4, 12])):
            k = r.choice(props)
            lo = cp()
            hi = min(N - 1, lo + r.choice([20, 255, 256, 1000, 0x2000, 0x14000]))
            vals = r.sample([v for v in VAL[k] if v not in ('CR', 'LF', 'SG')], min(r.choice([2, 3, 8]), len(VAL[k])))
            ops.append(['alt', k, lo, hi, vals, r.randrange(1 << 30)])
    if kind in (1, 3):
        for _ in range(r.choice([1, 3, 12])):
            lo, hi = span()
            ops.append(['assign', lo, min(hi, lo + 200), r.choice(['Lu', 'Lo', 'Mn', 'Mc', 'So', 'Ps', 'Nd'])])
    if r.randrange(3) == 0:
        # the last code point
        for k in r.sample(props, 4):
            ops.append(['set', k, N - r.choice([1, 1, 2, 256]), N - 1, r.choice(['SA', 'AI', 'CJ', 'ID'] if k == 'lb' and r.randrange(2) else [v for v in VAL[k] if v not in ('CR', 'LF', 'SG')])])
    if kind in (2, 4) or r.randrange(4) == 0:
        for c in sorted(base.missing_cuts) if r.randrange(2) else [cp() for _ in range(10)]:
            n, m = r.choice([(0, 0), (0, 1), (1, 0), (1, 1), (1, 5), (8, 8), (300, 1)])
            ops.append(['default', max(0, c - n), min(N - 1, c + m)])
    if kind in (3, 4) or r.randrange(3) == 0:
        for _ in range(r.choice([1, 5, 30, 100])):
            k = r.randrange(12)
            c = ch()
            if k < 7:
                m = [ch() if r.randrange(2) else None for _ in range(3)]
                if m[0] is None and r.randrange(4):
                    m[2] = None
                ops.append(['case', c] + m)
            elif k == 7 and base.case:
                ops.append(['case', r.choice(list(base.case)), None, None, None])
            elif k < 11:
                ops.append(['special', c] + [[ch() for _ in range(r.randrange(1, 4))] for _ in range(3)])
            else:
                ops.append(['special', r.choice(list(base.special)), [], [], []])
        if r.randrange(3) == 0:  # a new cased script, in pairs or upper case before lower case
            n, lo = r.choice([8, 40, 120]), r.choice([0x1C90, 0x10D70, 0x118A0, 0x16E40, 0x1E900, 0xABFE0, 0xE1000, 0x10FF00 - 40])
            for j in range(n):
                u, l = (lo + 2 * j, lo + 2 * j + 1) if n == 40 else (lo + j, lo + n + j)
                ops.append(['assign', min(u, l), max(u, l), 'Lu'])
                ops.append(['case', u, None, l, None])
                ops.append(['case', l, u, None, r.choice([None, u, u])])
            ops.append(['set', 'cased', lo, lo + 2 * n - 1, 'Yes'])
        if r.randrange(4) == 0:  # many special mappings close together
            lo = r.choice([0x400, 0x1F00, 0xFB00, 0x1E000, 0x10FE00])
            for c in range(lo, lo + r.choice([20, 160, 260])):
                ops.append(['special', c] + [[ch() for _ in range(r.randrange(1, 4))] for _ in range(3)])
    if kind in (0, 3, 5):
        n = r.choice([1, 4, 20, 60])
        used = set()
        for _ in range(n):
            k = r.randrange(8)
            if k < 4:
                o, c = plain(), plain()
                if o != c and not {o, c} & used:
                    used |= {o, c}
                    ops.append(['bracket', o, c])
            elif k < 6:
                o, c = plain(), plain()
                if o != c and not {o, c} & used:
                    used |= {o, c}
                    ops.append(['alias', o, c, r.choice([x for x in base.bracket if base.bracket[x][1] == 'o' and x not in base.decomp])])
            elif k == 6:
                ops.append(['unbracket', r.choice(list(base.bracket))])
    if r.randrange(3) == 0:
        # few mirrored characters, the largest distance being at the limit of a type
        ops.append(['nomirrors'])
        far = r.choice([0x7F, 0x80, 0x81, 0xFF, 0x100, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x10000, 0x8000, 0x80])
        for k in range(r.choice([1, 3, 12])):
            d = r.randrange(1, far) if k else far
            a = r.choice([r.randrange(0x1100) << 8 | r.randrange(256), r.randrange(0x20, 0x3000)])
            if a + d < N and not any(x <= c <= y for c in (a, a + d) for x, y in FIXED):
                ops.append(['mirror', a, a + d])
    elif kind in (0, 1) or r.randrange(3) == 0:
        for _ in range(r.choice([1, 5, 40, 200])):
            a, b = cp(), cp()
            if r.randrange(3) and a + 300 < N:
                b = a + r.randrange(1, 300)
            if a != b and not any(x <= c <= y for c in (a, b) for x, y in FIXED):
                ops.append(['mirror', a, b] if r.randrange(8) else ['unmirror', r.choice(list(base.mirror))])
    return ops

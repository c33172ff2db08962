#!/usr/bin/env python3
"""Generate harness/ucd_tables.inc from the vendored Unicode 15.0.0 data files
(ucd.tar.xz).  Independent of /repo's generators and of /repo's data copies.
Run by hand only; the output is committed."""
import sys, re, tarfile, io, os
here = os.path.dirname(os.path.abspath(__file__))
tar = tarfile.open(os.path.join(here, '..', 'ucd.tar.xz'))
def rd(name):
    return tar.extractfile('ucd/' + name).read().decode('utf-8').splitlines()
N = 0x110000
def rng(s):
    if '..' in s:
        a, b = s.split('..'); return int(a, 16), int(b, 16)
    a = int(s, 16); return a, a
def lines(name):
    for l in rd(name):
        l = l.split('#')[0].strip()
        if l:
            yield [x.strip() for x in l.split(';')]
def prop(name, default, value=None, missing=None):
    arr = [default] * N
    if missing:
        for l in rd(name):
            m = re.match(r'#\s*@missing:\s*([0-9A-F.]+)\s*;\s*(\w+)', l)
            if m:
                a, b = rng(m.group(1))
                for c in range(a, b + 1):
                    arr[c] = missing[m.group(2)]
    for f in lines(name):
        a, b = rng(f[0])
        if value is not None:
            if f[1] != value: continue
            v = True
        else:
            v = f[1]
        for c in range(a, b + 1):
            arr[c] = v
    return arr
GCB = ['Other','CR','LF','Control','Extend','ZWJ','Regional_Indicator','Prepend','SpacingMark','L','V','T','LV','LVT']
WB = ['Other','CR','LF','Newline','Extend','ZWJ','Regional_Indicator','Format','Katakana','Hebrew_Letter','ALetter','Single_Quote','Double_Quote','MidNumLet','MidLetter','MidNum','Numeric','ExtendNumLet','WSegSpace']
SB = ['Other','CR','LF','Extend','Sep','Format','Sp','Lower','Upper','OLetter','Numeric','ATerm','SContinue','STerm','Close']
LB = ['AL','BK','CR','LF','NL','SP','ZW','ZWJ','CM','WJ','GL','BA','HY','BB','EX','CL','CP','IS','SY','OP','QU','NS','B2','CB','IN','HL','NU','PR','PO','ID','EB','EM','JL','JV','JT','H2','H3','RI']
BC = ['L','R','AL','EN','ES','ET','AN','CS','NSM','BN','B','S','WS','ON','LRE','LRO','RLE','RLO','PDF','LRI','RLI','FSI','PDI']
# General category, simple mappings, decomposition
gc = ['Cn'] * N
upper = list(range(N)); lower = list(range(N)); title = list(range(N))
decomp = {}
first = None
for l in rd('UnicodeData.txt'):
    f = l.split(';')
    cp = int(f[0], 16)
    if f[1].endswith(', First>'):
        first = cp; continue
    if f[1].endswith(', Last>'):
        for c in range(first, cp + 1): gc[c] = f[2]
        continue
    gc[cp] = f[2]
    if f[12]: upper[cp] = int(f[12], 16)
    if f[13]: lower[cp] = int(f[13], 16)
    # UAX44: if the titlecase field is empty the mapping is the uppercase one
    if f[14]: title[cp] = int(f[14], 16)
    elif f[12]: title[cp] = int(f[12], 16)
    if f[5] and not f[5].startswith('<'):
        d = [int(x, 16) for x in f[5].split()]
        decomp[cp] = d
cased = prop('DerivedCoreProperties.txt', False, 'Cased')
cign = prop('DerivedCoreProperties.txt', False, 'Case_Ignorable')
extpict = prop('emoji-data.txt', False, 'Extended_Pictographic')
gcb = prop('GraphemeBreakProperty.txt', 'Other')
wb = prop('WordBreakProperty.txt', 'Other')
sb = prop('SentenceBreakProperty.txt', 'Other')
eaw = prop('EastAsianWidth.txt', 'N')
rawlb = prop('LineBreak.txt', 'XX')
lb = []
for c in range(N):
    v = rawlb[c]
    if v in ('AI', 'SG', 'XX'): v = 'AL'          # LB1
    elif v == 'SA': v = 'CM' if gc[c] in ('Mn', 'Mc') else 'AL'
    elif v == 'CJ': v = 'NS'
    lb.append(v)
M = {'Left_To_Right':'L','Right_To_Left':'R','Arabic_Letter':'AL','European_Terminator':'ET'}
bc = prop('DerivedBidiClass.txt', 'L', missing=M)
mirror = list(range(N))
for f in lines('BidiMirroring.txt'):
    mirror[int(f[0], 16)] = int(f[1], 16)
# brackets: (kind, canonical id of the *opening* bracket of the pair)
def canon(c):
    while c in decomp and len(decomp[c]) == 1: c = decomp[c][0]
    return c
brk = [0] * N   # 0 none; else (kind<<24 | opener) kind 1 open 2 close
for f in lines('BidiBrackets.txt'):
    c, p, t = int(f[0], 16), int(f[1], 16), f[2]
    if t == 'o': brk[c] = (1 << 24) | canon(c)
    elif t == 'c': brk[c] = (2 << 24) | canon(p)
SPEC_L, SPEC_T, SPEC_U = {}, {}, {}
for f in lines('SpecialCasing.txt'):
    f = [x for x in f]
    cp = int(f[0], 16)
    cond = f[4].strip() if len(f) > 4 else ''
    if cond: continue
    for d, i in ((SPEC_L, 1), (SPEC_T, 2), (SPEC_U, 3)):
        m = [int(x, 16) for x in f[i].split()]
        d[cp] = m
flags = [0] * N
for c in range(N):
    v = 0
    if cased[c]: v |= 1
    if cign[c]: v |= 2
    if extpict[c]: v |= 4
    if gc[c] == 'Cn': v |= 8
    if eaw[c] in ('F', 'W', 'H'): v |= 16
    flags[c] = v
out = ['struct ur { uint32_t lo, hi, v; };', 'struct um { uint32_t c, v; };', 'struct us { uint32_t c; uint8_t n; uint32_t v[3]; };']
def emit(name, arr, conv=lambda x: x, default=0):
    out.append('static const ur %s[] = {' % name)
    i = 0
    while i < N:
        j = i
        while j + 1 < N and arr[j + 1] == arr[i]: j += 1
        v = conv(arr[i])
        if v != default: out.append('{0x%X,0x%X,%d},' % (i, j, v))
        i = j + 1
    out.append('};')
emit('T_gcb', gcb, GCB.index); emit('T_wb', wb, WB.index); emit('T_sb', sb, SB.index)
emit('T_lb', lb, LB.index); emit('T_bc', bc, BC.index); emit('T_fl', flags)
def emitmap(name, arr):
    out.append('static const um %s[] = {' % name)
    for c in range(N):
        if arr[c] != c: out.append('{0x%X,0x%X},' % (c, arr[c]))
    out.append('};')
emitmap('T_up', upper); emitmap('T_lo', lower); emitmap('T_ti', title); emitmap('T_mi', mirror)
out.append('static const um T_brk[] = {')
for c in range(N):
    if brk[c]: out.append('{0x%X,0x%X},' % (c, brk[c]))
out.append('};')
def emitspec(name, d):
    out.append('static const us %s[] = {' % name)
    for c in sorted(d):
        out.append('{0x%X,%d,{%s}},' % (c, len(d[c]), ','.join('0x%X' % x for x in d[c])))
    out.append('};')
emitspec('T_sl', SPEC_L); emitspec('T_st', SPEC_T); emitspec('T_su', SPEC_U)
hdr = ['/* generated by tools/mkucd.py from ucd.tar.xz (Unicode 15.0.0) */']
for pre, names in (('GCB', GCB), ('WB', WB), ('SB', SB), ('LB', LB), ('BC', BC)):
    hdr.append('enum { ' + ', '.join('%s_%s' % (pre, n) for n in names) + ', %s_COUNT };' % pre)
    hdr.append('static const char *const %s_NAMES[] = {' % pre + ', '.join('"%s"' % n for n in names) + '};')
open(os.path.join(here, '..', 'harness', 'ucd_enums.inc'), 'w').write('\n'.join(hdr) + '\n')
open(os.path.join(here, '..', 'harness', 'ucd_tables.inc'), 'w').write('\n'.join(out) + '\n')
# the segmentation conformance examples, as code point lists with the expected
# boundaries: seeds for the generators and a self-test of the reference models
so = []
for k, name in (('G', 'GraphemeBreakTest.txt'), ('W', 'WordBreakTest.txt'), ('S', 'SentenceBreakTest.txt'), ('L', 'LineBreakTest.txt')):
    so.append('static const uint32_t SEED_%s[] = {' % k)
    for l in rd(name):
        l = l.split('#')[0].strip()
        if not l: continue
        t = l.split()
        cps = t[1::2]; br = t[0::2]
        # count, then code points with bit 31 set when a break precedes
        so.append('%d,' % len(cps) + ','.join('0x%XU' % (int(c, 16) | (0x80000000 if b == '\u00f7' else 0)) for b, c in zip(br, cps)) + ',')
    so.append('0xFFFFFFFFU};')
open(os.path.join(here, '..', 'harness', 'seeds.inc'), 'w').write('\n'.join(so) + '\n')

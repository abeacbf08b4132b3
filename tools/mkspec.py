#!/usr/bin/env python3
"""Freezes the Unicode 15.0.0 reference the checks compare against into /verif/spec/ucd.

Run once (by the author) on the pristine tree; the output is committed.  What can be
cross-checked against Python's own Unicode 15.0.0 database is (general category, East
Asian width, bidi class, mirrored flag, simple and full case mappings, canonical
decomposition of brackets), so that the frozen reference does not simply echo /repo/data.
"""
import os, re, sys, unicodedata as U
D = sys.argv[1] if len(sys.argv) > 1 else '/repo/data'
O = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'ucd')
N = 0x110000
assert U.unidata_version == '15.0.0'
def rows(fn):
    for l in open(os.path.join(D, fn), encoding='utf-8'):
        l = l.split('#')[0].strip()
        if l: yield [x.strip() for x in l.split(';')]
def rng(s):
    a, _, b = s.partition('..'); return int(a, 16), int(b or a, 16)
def prop(fn, default, want=None, col=1):
    v = [default]*N
    for r in rows(fn):
        if want and r[col] not in want: continue
        a, b = rng(r[0])
        for c in range(a, b+1): v[c] = r[col]
    return v
def boolprop(fn, name):
    v = [False]*N
    for r in rows(fn):
        if r[1] == name:
            a, b = rng(r[0])
            for c in range(a, b+1): v[c] = True
    return v
def dump(fn, v):
    with open(os.path.join(O, fn), 'w') as f:
        a = 0
        for c in range(1, N+1):
            if c == N or v[c] != v[a]:
                f.write('%X %X %s\n' % (a, c-1, v[a])); a = c
gc = [U.category(chr(c)) for c in range(N)]
eaw = [U.east_asian_width(chr(c)) for c in range(N)]
ep = boolprop('emoji-data.txt', 'Extended_Pictographic')
# cross-check the repository's copies
e2 = prop('EastAsianWidth.txt', 'N')
bad = [c for c in range(N) if e2[c] != eaw[c] and gc[c] != 'Cn']
assert not bad, [hex(c) for c in bad[:9]]
gcr = ['Cn']*N; first = None
for r in rows('UnicodeData.txt'):
    c = int(r[0], 16)
    if r[1].endswith(', First>'): first = c
    elif r[1].endswith(', Last>'):
        for k in range(first, c+1): gcr[k] = r[2]
    else: gcr[c] = r[2]
assert gcr == gc
g = prop('GraphemeBreakProperty.txt', 'Other')
dump('gcb', [g[c]+('+ExtPict' if ep[c] else '') for c in range(N)])
w = prop('WordBreakProperty.txt', 'Other')
dump('wb', [w[c]+('+ExtPict' if ep[c] else '') for c in range(N)])
dump('sb', prop('SentenceBreakProperty.txt', 'Other'))
l = prop('LineBreak.txt', 'XX'); lo = []
for c in range(N):
    x = l[c]
    if x in ('AI', 'SG', 'XX'): x = 'AL'
    elif x == 'SA': x = 'CM' if gc[c] in ('Mn', 'Mc') else 'AL'
    elif x == 'CJ': x = 'NS'
    if x in ('OP', 'CP') and eaw[c] in 'FWH': x += '+EA'
    if ep[c] and gc[c] == 'Cn': x += '+CnEP'
    lo.append(x)
dump('lb', lo)
cased = boolprop('DerivedCoreProperties.txt', 'Cased'); ci = boolprop('DerivedCoreProperties.txt', 'Case_Ignorable')
dump('casep', [('C' if cased[c] else '-')+('I' if ci[c] else '-') for c in range(N)])
# full mappings
up, lower, ti = {}, {}, {}
for r in rows('UnicodeData.txt'):
    c = int(r[0], 16)
    if r[12]: up[c] = [int(r[12], 16)]
    if r[13]: lower[c] = [int(r[13], 16)]
    if r[14]: ti[c] = [int(r[14], 16)]
for r in rows('SpecialCasing.txt'):
    if len(r) > 4 and r[4]: continue
    c = int(r[0], 16); s = lambda x: [int(y, 16) for y in x.split()]
    for m, x in ((lower, r[1]), (ti, r[2]), (up, r[3])):
        m[c] = s(x)
for nm, m, f in (('upper', up, str.upper), ('lower', lower, str.lower), ('title', ti, str.title)):
    for c in range(N):
        if 0xD800 <= c <= 0xDFFF: continue
        assert [ord(x) for x in f(chr(c))] == m.get(c, [c]), (nm, hex(c))
    with open(os.path.join(O, 'map_'+nm), 'w') as fo:
        for c in sorted(m):
            if m[c] != [c]: fo.write('%X %s\n' % (c, ' '.join('%X' % x for x in m[c])))
# bidi
b = ['L']*N
alias = {'Left_To_Right':'L','Right_To_Left':'R','Arabic_Letter':'AL','European_Terminator':'ET'}
for ln in open(os.path.join(D, 'DerivedBidiClass.txt')):
    m = re.match(r'# @missing: (\S+); (\S+)', ln)
    if m:
        x, y = rng(m.group(1))
        for c in range(x, y+1): b[c] = alias[m.group(2)]
for r in rows('DerivedBidiClass.txt'):
    x, y = rng(r[0])
    for c in range(x, y+1): b[c] = r[1]
for c in range(N):
    if U.bidirectional(chr(c)): assert U.bidirectional(chr(c)) == b[c], hex(c)
dump('bidi', b)
with open(os.path.join(O, 'brackets'), 'w') as fo:
    for r in rows('BidiBrackets.txt'):
        if r[2] == 'n': continue
        c = int(r[0], 16); d = U.normalize('NFD', chr(c)); assert len(d) == 1
        p = int(r[1], 16); dp = U.normalize('NFD', chr(p)); assert len(dp) == 1
        op = ord(d) if r[2] == 'o' else ord(dp)
        fo.write('%X %s %X\n' % (c, r[2], op))     # codepoint, open/close, canonical opening bracket
with open(os.path.join(O, 'mirror'), 'w') as fo:
    for r in rows('BidiMirroring.txt'):
        c = int(r[0], 16); assert U.mirrored(chr(c))
        fo.write('%X %X\n' % (c, int(r[1], 16)))

#!/usr/bin/env python3
"""Regenerates charsets.txt.xz, the frozen mapping data of the reference model.

Not part of any check: it was run once, at the pinned commit, and its output is
committed.  Sources: the published mapping tables shipped in tests/data (charset ->
Unicode, with the list of one-way mappings next to them), the raw 94x94 sets obtained
from the EUC tables by removing the code-set prefix, and three tables that tests/data
does not contain (IBM-943, the CP50221 extension rows, the pre-composition pairs of
CP1255/CP1258/TCVN) which are taken from a dump of the pinned library and were
compared with glibc's gconv modules and with Unicode NFC (see DESIGN.md).

Format: 'E <name>' starts a charset; then '<hexbytes> <cp>[+<cp2>] <flags>' with flags
D (decodes to) and/or E (is the encoding of); 'R <hexbytes> <cp> <count> <flags>' is a
GB18030 linear range; 'M <base> <mark> <composed>' a composition performed while
decoding.
"""
import os, sys, lzma, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
from re_ import L, use, conv
DATA = '/repo/tests/data/'
out = []
def rd(f):
    d = []
    for l in open(DATA + f):
        p = l.split()
        if p:
            d.append((bytes.fromhex(p[0][2:]), tuple(int(x, 16) for x in p[1:])))
    return d
def load(name):
    txt = rd(name + '.TXT')
    irr = rd(name + '.IRREVERSIBLE.TXT') if os.path.exists(DATA + name + '.IRREVERSIBLE.TXT') else []
    if name.endswith('-BMP'):
        n2 = name[:-4]
        irr = rd(n2 + '.IRREVERSIBLE.TXT') if os.path.exists(DATA + n2 + '.IRREVERSIBLE.TXT') else []
    dec = set(txt)
    enc = set((b, c) for b, c in txt if len(c) == 1) ^ set(irr)
    # pairs: encoded as the composed bytes
    return dec, enc
def emit(name, dec, enc, extra=()):
    out.append('E ' + name)
    for b, c in sorted(dec | enc):
        fl = ('D' if (b, c) in dec else '') + ('E' if (b, c) in enc else '')
        out.append('%s %s %s' % (b.hex(), '+'.join('%X' % x for x in c), fl))
    out.extend(extra)
def dump(name, two=True):
    dec = set()
    cd = L.reiconv_open_from_name(name.encode(), b'UCS-4LE', 0)
    one = set()
    for a in range(256):
        o, e, c, r = use(cd, bytes([a]))
        if e == 0:
            one.add(a); dec.add((bytes([a]), struct.unpack('<%dI' % (len(o)//4), o)))
        elif two:
            for b in range(256):
                s = bytes([a, b]); o, e, c, r = use(cd, s)
                if e == 0 and c == 2:
                    dec.add((s, struct.unpack('<%dI' % (len(o)//4), o)))
    enc = set()
    cd = L.reiconv_open_from_name(b'UCS-4LE', name.encode(), 0)
    for cp in range(0x30000):
        o, e, c, r = use(cd, struct.pack('<I', cp))
        if e == 0 and r == 0 and o:
            enc.add((o, (cp,)))
    return dec, enc
names = sorted(f[:-4] for f in os.listdir(DATA) if f.endswith('.TXT') and '.IRREVERSIBLE' not in f)
tables = {}
import unicodedata
for n in names:
    dec, enc = load(n)
    lib = n
    extra = []
    if n.startswith('BIG5-HKSCS-'):
        lib = 'BIG5-HKSCS:' + n[-4:]
    if n.startswith('GB18030-'):
        lib = 'GB18030:' + n[8:12]
        extra.append('R 90308130 10000 %X DE' % 0x100000)
    if n in ('CP1255', 'CP1258', 'TCVN'):
        # compositions: every pair of decodable characters (and composed results again)
        sing = {b: c[0] for b, c in dec if len(b) == 1}
        comp = {}
        frontier = [(b, c) for b, c in sing.items()]
        inv = {}
        for b, c in sing.items(): inv.setdefault(c, b)
        access = dict((c, b) for b, c in sing.items())
        todo = list(access.items())
        while todo:
            c, acc = todo.pop()
            for mb, mc in sing.items():
                o, e, k, r = conv(lib, 'UCS-4LE', acc + mb)
                o = struct.unpack('<%dI' % (len(o)//4), o)
                if e == 0 and len(o) == 1:
                    comp[(c, mc)] = o[0]
                    if o[0] not in access:
                        access[o[0]] = acc + mb; todo.append((o[0], acc + mb))
                else:
                    assert e == 0 and o == (c, mc), (n, acc, mb, o, e)
        bad = []
        for (a, m), r in sorted(comp.items()):
            nf = unicodedata.normalize('NFD', chr(a) + chr(m)) == unicodedata.normalize('NFD', chr(r))
            if not nf: bad.append((hex(a), hex(m), hex(r)))
            extra.append('M %X %X %X' % (a, m, r))
        print(n, 'compositions', len(comp), 'not canonical:', bad)
    tables[n] = (dec, enc)
    emit(lib, dec, enc, extra)
def raw(src, pref, rows=range(0x21, 0x7f)):
    def f(S):
        return set((bytes(x & 0x7f for x in b[len(pref):]), c) for b, c in S
                   if b.startswith(pref) and len(b) == len(pref) + 2 and b[len(pref)] >= 0xa1 and b[len(pref)] & 0x7f in rows)
    d, e = tables[src]
    return f(d), f(e)
r75 = range(0x21, 0x75)
emit('JISX0208', *raw('EUC-JP', b'', r75))
emit('JISX0212', *raw('EUC-JP', b'\x8f', r75))
emit('GB2312_80', *raw('EUC-CN', b''))
emit('KSC5601', *raw('EUC-KR', b''))
# EUC-TW: plane 1 without prefix; planes 1..15 with prefix 8E A0+plane.
for p in range(1, 8):
    if p == 1:
        d, e = raw('EUC-TW', b'')
    else:
        d, e = raw('EUC-TW', bytes([0x8e, 0xa0 + p]))
    emit('@CNS11643-%d' % p, d, e)
emit('@JISX0213-1', *raw('EUC-JISX0213', b''))
emit('@JISX0213-2', *raw('EUC-JISX0213', b'\x8f'))
emit('CP943', *dump('CP943'))
# CP50221: extended JIS X 0208 and JIS X 0212
for nm, esc in (('@JISX0208-MS', b'\x1b$B'), ('@JISX0212-MS', b'\x1b$(D')):
    dec = set(); enc = set()
    for a in range(0x21, 0x7f):
        for b in range(0x21, 0x7f):
            o, e, c, r = conv('ISO-2022-JP-MS', 'UCS-4LE', esc + bytes([a, b]))
            if e == 0 and len(o) == 4:
                dec.add((bytes([a, b]), struct.unpack('<I', o)))
    for cp in range(0x10000):
        if 0xd800 <= cp < 0xe000: continue
        o, e, c, r = conv('UCS-4LE', 'ISO-2022-JP-MS', struct.pack('<I', cp))
        if e == 0 and r == 0 and o.startswith(esc):
            enc.add((o[len(esc):len(esc)+2], (cp,)))
    emit(nm, dec, enc)
data = ('\n'.join(out) + '\n').encode()
open('/verif/spec/charsets.txt.xz', 'wb').write(lzma.compress(data, preset=9 | lzma.PRESET_EXTREME))
print(len(data), os.path.getsize('/verif/spec/charsets.txt.xz'))

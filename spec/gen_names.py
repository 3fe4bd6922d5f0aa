#!/usr/bin/env python3
"""Regenerates names.txt (frozen at the pinned commit; not part of any check).
N <canonical> <alias>...   P <codepage> <canonical>   X <constant> <canonical>"""
import re, os
s = open('/repo/lib/encodings.h.snippet').read()
s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
s = re.sub(r'//[^\n]*', '', s)
enc = {}; order = []; consts = {}; cps = {}
for m in re.finditer(r'DEFENCODING\(\(([^)]*)\)\s*,\s*(\w+)\s*,\s*(\w+)\s*,', s):
    names = re.findall(r'"([^"]*)"', m.group(1))
    if m.group(2) == 'cp949': names.remove('KSC56011987')  # also declared for KSC5601, which has it
    enc[m.group(2)] = names; order.append(m.group(2)); consts[m.group(3)] = names[0]
for m in re.finditer(r'DEFCODEPAGE\(\s*(\d+)\s*,\s*(\w+)\s*\)', s):
    assert int(m.group(1)) not in cps
    cps[int(m.group(1))] = enc[m.group(2)][0]
for m in re.finditer(r'DEFINDEX\(\s*(\w+)\s*,\s*(\w+)\s*\)', s):
    consts[m.group(1)] = None if m.group(2) not in consts else consts[m.group(2)]
ix = {}
for l in open('/repo/lib/generated/indexes.h.shippet'):
    m = re.match(r'\s*ENCODING_(\w+)\s*=\s*(?:ENCODING_)?(\w+)', l)
    if m: ix[m.group(1)] = int(m.group(2)) if m.group(2).isdigit() else ix[m.group(2)]
for k, v in ix.items():
    c = enc[order[v]][0]
    if consts.get(k) != c: print('const mismatch', k, consts.get(k), c)
    consts[k] = c
for k in list(consts):
    if k not in ix: print('no constant', k)
ixpp = dict((m.group(1), int(m.group(2))) for m in re.finditer(r'(\w+)\s*=\s*(\d+)', open('/repo/lib/generated/indexes.hpp.shippet').read()))
print('hpp', [k for k in ixpp if ixpp[k] != ix[k]], len(ixpp))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.txt'), 'w') as f:
    for x in order: f.write('N ' + ' '.join(enc[x]) + '\n')
    for c in sorted(cps): f.write('P %d %s\n' % (c, cps[c]))
    for k in sorted(ix): f.write('X %s %s\n' % (k, consts[k]))
print(len(order), sum(map(len, enc.values())), len(cps), len(ix))

#!/usr/bin/env python3
"""Developer tool: systematic mutants of the library, in scratch directories under /tmp/mut.
mutate.py list FILES...        -> /tmp/mut/all.json  (every mutant of the code lines of the files)
mutate.py filter               -> /tmp/mut/alive.json (those that compile, change the object code and pass the tests)
mutate.py check [--shard i/n] [--limit N] -> /tmp/mut/matrix.jsonl (which checks report each, checks restricted to the encodings concerned)
"""
import sys, os, re, json, subprocess, shutil, hashlib, concurrent.futures as cf, random
sys.path.insert(0, '/verif')
W = '/tmp/mut'; R = os.environ.get('VERIF_REPO', '/repo')
def code_lines(path):
    """(lineno, text) of lines inside functions, tables and comments left out"""
    t = open(path).read(); t = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), t, flags=re.S); t = re.sub(r'//[^\n]*', '', t)
    out = []; depth = 0; infn = False; pend = ''
    for i, l in enumerate(t.split('\n')):
        if depth == 0: pend = (pend + ' ' + l)[-400:]
        for ch in l:
            if ch == '{':
                if depth == 0: infn = bool(re.search(r'\)\s*\{?$', pend.split('{')[0].rstrip() + '{')) and '=' not in pend.split('{')[0].split(')')[-1] and '[' not in pend.split('(')[0][-60:]
                depth += 1
            elif ch == '}':
                depth -= 1
                if depth == 0: pend = ''
        if depth and infn and l.strip(): out.append((i, l))
        if depth == 0 and (l.strip().endswith(';') or not l.strip()): pend = ''
    return out
REL = [('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&')]
def muts(l):
    s = set()
    for m in re.finditer(r'(?<![<>=!-])(<=|>=|==|!=|&&|\|\||<(?![<=])|>(?![>=]))', l):
        o = m.group(1); a, b = m.span(1)
        if o in ('<', '>') and (l[a-1:a] in '<>-' or '#include' in l): continue
        alt = {'<=': ['<'], '>=': ['>'], '<': ['<='], '>': ['>='], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&']}[o]
        for x in alt: s.add(l[:a] + x + l[b:])
    for m in re.finditer(r'\b(0x[0-9a-fA-F]+|\d+)\b', l):
        a, b = m.span(1); v = int(m.group(1), 0); h = m.group(1).startswith('0x')
        for d in (1, -1):
            if v + d < 0: continue
            s.add(l[:a] + (hex(v + d) if h else str(v + d)) + l[b:])
    st = l.strip()
    if re.match(r'^[\w>\[\].*\s()-]+(\s*[|&+^-]?=[^=].*|\+\+|--)\s*;$', st) and not re.match(r'^(unsigned|int|const|size_t|ucs4_t|state_t|char|static|struct|conv_t|enum)\b', st): s.add(l.replace(st, ';'))
    if st in ('break;', 'abort();', 'continue;') : s.add(l.replace(st, ';'))
    if re.match(r'^(goto \w+;)$', st): s.add(l.replace(st, ';'))
    for a, b in (('RET_TOOFEW(0)', 'RET_ILSEQ'), ('RET_ILSEQ', 'RET_TOOFEW(0)'), ('goto none', 'goto ilseq'), ('goto ilseq', 'goto none'), ('RET_TOOSMALL', 'RET_ILUNI'), ('RET_ILUNI', 'RET_TOOSMALL'), ('RET_TOOFEW(count)', 'RET_TOOFEW(0)'), ('RET_SHIFT_ILSEQ(count)', 'RET_ILSEQ'), ('count + ', '0 + '), ('EILSEQ', 'EINVAL'), ('E2BIG', 'EINVAL'), ('EINVAL', 'EILSEQ')):
        if a in l: s.add(l.replace(a, b, 1))
    s.discard(l); return sorted(s)
def cmd_list(files):
    rnd = random.Random(1); allm = []
    for f in files:
        for i, l in code_lines(R + '/' + f):
            orig = open(R + '/' + f).read().split('\n')[i]
            for x in muts(orig if '/*' not in orig and '//' not in orig else l):
                allm.append({'file': f, 'line': i, 'old': orig, 'new': x})
    keep = []
    for f in files:
        ms = [m for m in allm if m['file'] == f]; frac = 1 if f in FOR else float(os.environ.get('FRAC', '0.25'))
        keep += rnd.sample(ms, int(len(ms) * frac + 0.5))
    allm = keep
    for k, m in enumerate(allm): m['id'] = k
    json.dump(allm, open(W + '/all.json', 'w')); print(len(allm), 'mutants')
DEFS = ['-DVERSION_MAJOR=2', '-DVERSION_MINOR=1', '-DVERSION_PATCH=0', '-DHAVE_LANGINFO_CODESET=1']
def tree(m, base):
    """lib copy with the mutant: hard links but for the mutated file"""
    d = '%s/t%d%s' % (base, m['id'], os.environ.get('TAG', '')); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); subprocess.check_call(['cp', '-al', R + '/lib', R + '/include', R + '/CMakeLists.txt', d])
    p = d + '/' + m['file']; t = open(p).read().split('\n'); assert t[m['line']] == m['old']; t[m['line']] = m['new']; os.unlink(p); open(p, 'w').write('\n'.join(t)); return d
def srcs(d): return [d + '/lib/iconv.c', d + '/lib/reiconv.cpp', d + '/lib/locale_charset.cpp']
def compile(d, flags, tag, cc='gcc', cxx='g++'):
    objs = []
    for s in srcs(d):
        o = '%s/%s-%s.o' % (d, tag, os.path.basename(s)); objs.append(o)
        c = [cc, '-std=gnu17'] if s.endswith('.c') else [cxx, '-std=gnu++20']
        if subprocess.run(c + ['-w'] + flags + DEFS + ['-I' + d + '/lib', '-I' + R + '/_build/include', '-c', s, '-o', o], capture_output=True).returncode: return None
    return objs
TESTS = None
def prep():
    os.makedirs(W + '/tobj', exist_ok=True); global TESTS
    for t in ('check-stateful', 'check-stateless', 'check-encoding', 'test-bom-state', 'test-discard'):
        o = W + '/tobj/' + t + '.o'
        if not os.path.exists(o): subprocess.check_call(['g++', '-std=gnu++20', '-w', '-O2', '-I' + R + '/lib', '-I' + R + '/_build/include', '-I' + R + '/tests', '-c', R + '/tests/%s.cpp' % t, '-o', o] + DEFS)
    TESTS = [x.split('::')[0] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
def same(objs, ref):
    for o in objs:
        b = ref + '/' + os.path.basename(o)
        if subprocess.run(['bash', '-c', 'cmp -s <(objdump -s -j .text -j .rodata -j .data -j .text.unlikely %s | tail -n +3) <(objdump -s -j .text -j .rodata -j .data -j .text.unlikely %s | tail -n +3)' % (o, b)]).returncode: return False
    return True
def runtests(d, objs, m=None):
    names = {re.sub(r'\W|_', '', x).lower() for x in EM.get(os.path.basename(m['file']), ())} if m else set()
    exes = {}
    for t in ('check-stateful', 'check-stateless', 'check-encoding', 'test-bom-state', 'test-discard'):
        e = d + '/' + t; exes[t] = e
        if subprocess.run(['g++', W + '/tobj/' + t + '.o'] + objs[:2] + ['-o', e], capture_output=True).returncode: return 'link'
    os.makedirs(d + '/cwd', exist_ok=True)
    rel = lambda t: re.sub(r'\W|_', '', t.split('ful-')[-1].split('less-')[-1]).lower() in names
    sel = TESTS if not m else [t for t in TESTS if rel(t) or t.startswith('test-') or t == 'check-encoding'] if m['file'] not in FOR else [t for t in TESTS if 'stateful' in t or 'test-' in t or t == 'check-encoding' or t[-3:] in ('S-2', 'JIS', '-TW')]
    for t in sorted(sel, key=lambda t: 0 if re.sub(r'\W|_', '', t.split('ful-')[-1].split('less-')[-1]).lower() in names else 1 if 'stateful' in t or 'test-' in t else 2):
        for pre in ('check-stateless', 'check-stateful'):
            if t.startswith(pre + '-'): c = [exes[pre], R + '/_build/tests/data', t[len(pre) + 1:]]; break
        else: c = [exes[t]]
        try:
            if subprocess.run(c, cwd=d + '/cwd', capture_output=True, timeout=60).returncode: return t
        except subprocess.TimeoutExpired: return t
    return ''
def one(m):
    d = tree(m, W)
    try:
        o = compile(d, ['-O0'], 'f')
        if not o: return m['id'], 'compile'
        r = runtests(d, o, m)
        if r: return m['id'], r
        o = compile(d, ['-O2'], 'f')
        return m['id'], 'same' if same(o, W + '/ref') else 'alive'
    finally: shutil.rmtree(d, ignore_errors=True)
def cmd_filter():
    global EM; EM = enc_map(True); prep(); allm = json.load(open(W + '/all.json'))
    ref = tree({'id': 9999999, 'file': 'lib/iconv.c', 'line': 0, 'old': open(R + '/lib/iconv.c').read().split('\n')[0], 'new': open(R + '/lib/iconv.c').read().split('\n')[0]}, W)
    o = compile(ref, ['-O2'], 'f'); shutil.rmtree(W + '/ref', ignore_errors=True); os.makedirs(W + '/ref'); [shutil.copy(x, W + '/ref') for x in o]; assert runtests(ref, o) == '', 'tests fail on the clean tree'; shutil.rmtree(ref)
    res = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for k, r in ex.map(one, allm): res[k] = r
    alive = [m for m in allm if res[m['id']] == 'alive']; json.dump(alive, open(W + '/alive.json', 'w'))
    print(len(allm), 'mutants;', sum(r == 'compile' for r in res.values()), 'do not compile;', sum(r == 'same' for r in res.values()), 'same code;', len(alive), 'alive after the tests')
def enc_map(aliases=False):
    """file -> encodings whose converter it is or is included by"""
    inc = {}
    for f in os.listdir(R + '/lib/converters'): inc[f] = set(re.findall(r'#include "converters/([\w.]+)"', open(R + '/lib/converters/' + f).read()))
    fn = {}
    for f in inc:
        for x in re.findall(r'\b(\w+)_(?:mbtowc|wctomb)\b\s*\(conv_t', open(R + '/lib/converters/' + f).read()): fn[x] = f
    ch = True
    while ch:
        ch = False
        for f in inc:
            n = set(inc[f]); [n.update(inc.get(g, ())) for g in inc[f]]
            if n != inc[f]: inc[f] = n; ch = True
    m = {}; t = re.sub(r'//[^\n]*|/\*.*?\*/', '', open(R + '/lib/encodings.h.snippet').read(), flags=re.S)
    for e in re.finditer(r'^DEFENCODING\(\(\s*("[^)]*?)\),\s*\w+,\s*\w+,\s*\{\s*(\w+?)_mbtowc.*?\{\s*(\w+?)_wctomb', t, re.S | re.M):
        for fun in (e.group(2), e.group(3)):
            f = fn.get(fun)
            if f:
                for g in {f} | inc[f]: m.setdefault(g, set()).update(re.findall(r'"([^"]+)"', e.group(1))[:None if aliases else 1])
    return m
SHORT = {'utf7.h': 'UTF7'}
FOR = {'lib/loop_unicode.h': 'UTF8,ISO2022JP3,CP1255,EUCJISX0213,UTF16,UTF7,ISO2022KR,HZ,USASCII,BIG5HKSCS:2008,UCS4LE,UCS2SWAPPED,ISO88591,C99'}
FOR['lib/iconv.c'] = FOR['lib/loop_unicode.h']; FOR['lib/reiconv.cpp'] = 'UTF8,ISO2022JP3,CP1255,UTF16,USASCII'
def build_harness():
    import run
    cfgs = json.load(open('/verif/checks.json')); hb = W + '/h'; os.makedirs(hb, exist_ok=True)
    b = W + '/hb'; os.makedirs(b + '/spec', exist_ok=True); srcs_, defs_, incs_ = run.configure(b); shutil.copy('/verif/spec/names.txt', b + '/spec'); import lzma; open(b + '/spec/charsets.txt', 'wb').write(lzma.open('/verif/spec/charsets.txt.xz').read()); shutil.copy('/verif/spec/locales.txt', b + '/spec'); run.consts(b); run.conv_size(b, defs_, incs_)
    cmds = []
    for c, cfg in cfgs.items():
        for h in cfg['sources']:
            fl = cfg.get('harness_flags', ['-O2', '-g1']); n = h
            if h.startswith('lib:'): n = h[4:]; fl = cfg['lib_flags']
            o = '%s/%s-%s.o' % (hb, c, n)
            cc, cxx = cfg.get('cc', 'gcc'), cfg.get('cxx', 'g++')
            cmds.append(([cxx, '-std=gnu++20'] if n.endswith('pp') else [cc, '-std=gnu17']) + ['-w'] + fl + ['-I/verif/src', '-I' + b + '/include', '-c', '/verif/src/' + n, '-o', o])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(subprocess.check_call, cmds))
def cmd_check(args):
    import run; shard, of = 0, 1; limit = None; only = None; full = False; src = W + '/alive.json'; out = W + '/matrix.jsonl'
    while args:
        a = args.pop(0)
        if a == '--shard': shard, of = map(int, args.pop(0).split('/'))
        elif a == '--limit': limit = int(args.pop(0))
        elif a == '--checks': only = args.pop(0).split(',')
        elif a == '--ids': ids = set(map(int, args.pop(0).split(','))); only_ids = ids
        elif a == '--full': full = True
        elif a == '--src': src = args.pop(0)
        elif a == '--out': out = args.pop(0)
    alive = json.load(open(src)); 
    if 'only_ids' in dir(): alive = [m for m in alive if m['id'] in only_ids]
    rnd = random.Random(7); rnd.shuffle(alive)
    alive = alive[shard::of][:limit]; cfgs = json.load(open('/verif/checks.json')); em = enc_map(); os.environ.get('NOH') or build_harness()
    kn = run.known()
    for m in alive:
        d = tree(m, W)
        try:
            base = os.path.basename(m['file']); sel = FOR.get(m['file']) or ','.join(sorted(em.get(base, []))[:14]) or 'USASCII'
            libs = {}; res = {}
            order = ('C17 C21 C18 C09 C06 C10 C14 C11 C13 C05 C08 C22 C04 C03 C07 C15 C16 C19 C12 C02 C23 C01 C20' if m['file'] in FOR else 'C23 C02 C03 C04 C22 C01 C08 C06 C09 C05 C11 C10 C14 C12 C13 C07 C18 C21').split()
            for c in order:
                cfg = cfgs[c]
                if only and c not in only: continue
                if 'K' in res.values() and not full: break
                if c in ('C15', 'C16', 'C17') and m['file'] != 'lib/iconv.c': continue
                if c in ('C20', 'C19') and m['file'] not in FOR: continue
                key = (tuple(cfg.get('lib_flags', ['-O2', '-g1'])), cfg.get('cc', 'gcc'), cfg.get('cxx', 'g++'))
                if key not in libs: libs[key] = compile(d, list(key[0]), 'k%d' % len(libs), key[1], key[2])
                exe = d + '/check'; objs = ['%s/h/%s-%s.o' % (W, c, h.split(':')[-1]) for h in cfg['sources']]
                ar = d + '/l.a'
                if os.path.exists(ar): os.unlink(ar)
                subprocess.check_call(['ar', 'rcs', ar] + libs[key]); subprocess.check_call([key[2]] + objs + [ar, '-o', exe] + cfg.get('link_flags', run.WRAP) + ['-lpthread'])
                env = dict(os.environ); env.update(cfg.get('env', {}))
                try:
                    p = subprocess.run([exe, '--spec', W + '/hb/spec', '--tier', 'quick', '--deadline', '200', '--jobs', os.environ.get('J', '4'), '--only', sel] + [x for (pp, k) in kn if pp == c for x in ('--known', k)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, timeout=400)
                    if p.returncode: res[c] = 'exit%d' % p.returncode
                    else:
                        r = json.loads(p.stdout.strip().splitlines()[-1]); 
                        if r['violations']: res[c] = 'K'
                        elif r.get('unconfirmed'): res[c] = 'unconfirmed'
                except subprocess.TimeoutExpired: res[c] = 'timeout'
            rec = dict(m); rec['sel'] = sel; rec['res'] = res
            open(out, 'a').write(json.dumps(rec) + '\n'); print(m['id'], m['file'], m['line'] + 1, m['old'].strip(), '->', m['new'].strip(), ':', res or 'SURVIVED', flush=True)
        finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    os.makedirs(W, exist_ok=True); a = sys.argv[1:]
    {'list': lambda: cmd_list(a[1:]), 'filter': cmd_filter, 'check': lambda: cmd_check(a[1:])}[a[0]]()

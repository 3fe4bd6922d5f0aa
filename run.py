#!/usr/bin/env python3
"""Builds the library from /repo's working tree together with the checker of one property, runs it,
writes evidence/<id>.json and reports.   run.py <property> [quick|thorough]"""
import json, os, re, shutil, subprocess, sys, tempfile, time, lzma, glob, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write("command failed: %s\n%s%s\n" % (" ".join(cmd), p.stdout[-4000:], p.stderr[-8000:]))
        sys.exit(2)
    return p.stdout

def parallel(cmds):
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cmds]
    bad = False
    for c, p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            sys.stderr.write("command failed: %s\n%s\n" % (" ".join(c), out[-8000:])); bad = True
    if bad: sys.exit(2)

def configure(build):
    """What the CMake build does to produce the public headers; returns (sources, defines)."""
    cm = open(REPO + "/CMakeLists.txt").read()
    ver = re.search(r"project\(\s*cppp-reiconv\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", cm)
    ver = ver.groups() if ver else ("3", "0", "0")
    srcs = re.search(r"set\(SOURCES\s+([^)]*)\)", cm)
    srcs = re.findall(r"\$\{CMAKE_CURRENT_SOURCE_DIR\}/([^\s\"]+)", srcs.group(1)) if srcs else []
    if not srcs: srcs = ["lib/iconv.c", "lib/reiconv.cpp", "lib/locale_charset.cpp"]
    srcs = [s for s in srcs if s not in ("lib/locale_charset.c",)]
    inc = build + "/include"
    for sub in ("cppp/encodings",): os.makedirs(inc + "/" + sub, exist_ok=True)
    def conf(src, dst, **v):
        t = open(REPO + "/include/" + src, encoding="utf-8", errors="surrogateescape").read()
        for k, x in v.items(): t = t.replace("@%s@" % k, x).replace("${%s}" % k, x)
        open(inc + "/" + dst, "w", encoding="utf-8", errors="surrogateescape").write(t)
    conf("cppp/reiconv.h.in", "cppp/reiconv.h", CPPP_API=""); conf("cppp/reiconv.hpp.in", "cppp/reiconv.hpp", CPPP_API="")
    for x in ("h", "hpp"):
        code = open(REPO + "/lib/generated/indexes.%s.shippet" % x).read().strip()
        conf("cppp/encodings/reiconv.%s.in" % x, "cppp/encodings/reiconv.%s" % x, INDEXES_CODE=code)
    conf("iconv.h.in", "iconv.h")
    defs = ["-DVERSION_MAJOR=" + ver[0], "-DVERSION_MINOR=" + ver[1], "-DVERSION_PATCH=" + ver[2], "-DHAVE_LANGINFO_CODESET=1"]
    return srcs, defs, ["-I" + REPO + "/lib", "-I" + inc]

def consts(build):
    """Headers that list the value of every documented constant, as the C and the C++ compiler see it."""
    names = [l.split()[1] for l in open(VERIF + "/spec/names.txt") if l.startswith("X ")]
    for x, pre in (("h", "ENCODING_"), ("hpp", "reiconv::encoding::Encodings::")):
        t = open(build + "/include/cppp/encodings/reiconv." + x).read(); w = set(re.findall(r"\w+", t))
        key = (lambda n: "ENCODING_" + n) if x == "h" else (lambda n: n)
        with open(build + "/include/consts_%s.inc" % x, "w") as f:
            for n in names: f.write('{"%s", %s},\n' % (n, "(int)" + pre + n if key(n) in w else "-2"))

def conv_size(build, defs, incs):
    """sizeof the descriptor, for libraries that keep descriptors elsewhere than in fresh allocations (0: unknown)"""
    c = build + "/size.c"; open(c, "w").write('#include <stddef.h>\n#include <stdio.h>\n#include "reiconv_defines.h"\nint main(void) { printf("%zu", sizeof(struct conv_struct)); return 0; }\n')
    n = "0"
    if subprocess.run(["gcc", "-std=gnu17", "-w"] + defs + incs + [c, "-o", build + "/size"], stderr=subprocess.DEVNULL).returncode == 0:
        n = subprocess.run([build + "/size"], stdout=subprocess.PIPE, text=True).stdout.strip() or "0"
    open(build + "/include/conv_size.inc", "w").write("inline const size_t VE_CONV_SIZE = %s;\n" % n)

def lib_cmds(build, srcs, defs, incs, flags, tag, cc="gcc", cxx="g++"):
    cmds, objs = [], []
    for s in srcs:
        o = "%s/%s-%s.o" % (build, tag, s.replace("/", "_")); objs.append(o)
        if s.endswith(".c"): cmds.append([cc, "-std=gnu17", "-w"] + flags + defs + incs + ["-c", REPO + "/" + s, "-o", o])
        else: cmds.append([cxx, "-std=gnu++20", "-w"] + flags + defs + incs + ["-c", REPO + "/" + s, "-o", o])
    return cmds, objs

WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]
LEVEL = {}
def known():
    k = {}
    for l in open(VERIF + "/known-findings.txt"):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m: k[(m.group(1), m.group(2))] = m.group(3)
    return k

def main():
    if sys.argv[1] == "--selfcheck":
        for t in ("gcc", "g++", "clang", "clang++", "ar"):
            if not shutil.which(t): sys.exit("missing tool: " + t)
        json.load(open(VERIF + "/checks.json")); lzma.open(VERIF + "/spec/charsets.txt.xz").read(16); print("ready"); return
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    cfg = json.load(open(VERIF + "/checks.json"))[prop]
    build = tempfile.mkdtemp(prefix="reiconv-%s-" % prop)
    code = 2
    try:
        code = check(prop, tier, seed, cfg, build, t0)
    finally:
        shutil.rmtree(build, ignore_errors=True)
    sys.exit(code)

def check(prop, tier, seed, cfg, build, t0):
    srcs, defs, incs = configure(build)
    spec = build + "/spec"; os.makedirs(spec)
    shutil.copy(VERIF + "/spec/names.txt", spec); shutil.copy(VERIF + "/spec/locales.txt", spec)
    open(spec + "/charsets.txt", "wb").write(lzma.open(VERIF + "/spec/charsets.txt.xz").read())
    consts(build); conv_size(build, defs, incs)
    lflags = cfg.get("lib_flags", ["-O2", "-g1"]); hflags = cfg.get("harness_flags", ["-O2", "-g1"]); link = cfg.get("link_flags", WRAP)
    cc, cxx = cfg.get("cc", "gcc"), cfg.get("cxx", "g++")
    cmds, lobjs = lib_cmds(build, srcs, defs, incs, lflags, "lib", cc, cxx); objs = []
    for h in cfg["sources"]:
        flags = hflags
        if h.startswith("lib:"): h = h[4:]; flags = lflags          # compiled the way the library is
        o = build + "/" + h + ".o"; objs.append(o)
        cmds.append(([cxx, "-std=gnu++20"] if h.endswith("pp") else [cc, "-std=gnu17"]) + ["-w"] + flags + ["-I" + VERIF + "/src"] + incs[1:] + ["-c", VERIF + "/src/" + h, "-o", o])
    for k, (src, fl) in enumerate(cfg.get("extra", [])):            # sources of the repository that the build here leaves out
        o = "%s/extra%d.o" % (build, k); objs.append(o)
        cmds.append([cc, "-std=gnu17", "-w"] + lflags + fl + ["-I" + VERIF + "/src/stub"] + incs + ["-c", REPO + "/" + src, "-o", o])
    parallel(cmds)
    exe = build + "/check"; sh(["ar", "rcs", build + "/libreiconv.a"] + lobjs)
    sh([cxx] + objs + [build + "/libreiconv.a"] + ["-o", exe] + link + ["-lpthread"])
    deadline = cfg.get("deadline", {}).get(tier, 500 if tier == "quick" else 5400)
    env = dict(os.environ); env.update(cfg.get("env", {}))
    p = subprocess.run([exe, "--spec", spec, "--tier", tier, "--deadline", str(deadline), "--jobs", str(os.cpu_count() or 4)] + cfg.get("args", []) + [x for (pp, k) in known() if pp == prop for x in ("--known", k)], stdout=subprocess.PIPE, text=True, env=env)
    if p.returncode in (-4, -6, -7, -8, -11):                       # the process died in or behind a call, outside the pool
        p.stdout = json.dumps({"states": 0, "transitions": 0, "evaluations": 0, "nontrivial": 0, "calls": 0, "truncated": 1, "known": [], "samples": [], "violations": [{"key": "died", "what": "the process was killed by signal %d" % -p.returncode}]}); p.returncode = 0
    if p.returncode != 0:
        sys.stderr.write("checker failed with status %d\n%s\n" % (p.returncode, p.stdout[-2000:])); return 2
    r = json.loads(p.stdout.strip().splitlines()[-1])
    kf = known(); new, old = r["violations"], r["known"]
    cov = {"technique": "model checking", "states": r["states"], "transitions": r["transitions"],
           "traces_validated_against_impl": r["transitions"] or r["evaluations"], "samples": r["samples"] or ["none"],
           "library_calls": r["calls"], "exhaustive": r["truncated"] == 0, "rule": cfg["rule"]}
    if cfg["level"] != "model_checking":
        cov.update({"evaluations": r["evaluations"] or r["transitions"], "distinct_nontrivial": r["nontrivial"]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": cfg.get("assumptions", []), "violations": len(new)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    for k in sorted(old): print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kf[(prop, k)]))
    if new:
        rp = VERIF + "/evidence/replay-%s.json" % prop
        json.dump(new, open(rp, "w"), indent=1)
        for v in new[:5]: print("  " + v["what"])
        print("VIOLATION property=%s replay=%s" % (prop, rp)); return 1
    print("%s %s: held; %d states, %d transitions, %d calls, exhaustive=%s, %.1fs" % (prop, tier, r["states"], r["transitions"] or r["evaluations"], r["calls"], cov["exhaustive"], time.time() - t0))
    return 0

if __name__ == "__main__": main()

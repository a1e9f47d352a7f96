#!/usr/bin/env python3
"""Builds and runs the check of one property.   run.py C01 [--replay FILE] [extra engine args]
Everything is compiled from the current working tree of /repo into /verif/_build/<id>."""
import glob, json, os, subprocess, sys, time, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from checks.registry import CHECKS, MODULES   # noqa

DEFS = ("-DBOOST_ENABLE_ASSERT_DEBUG_HANDLER -DFMT_SHARED -DLF_REDIRECT_ASSERTS "
        "-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB "
        "-D_GLIBCXX_ASSERTIONS")
LIBS = "-lspdlog -lfmt -lboost_program_options"

def module_sources(mods):
    """transitive closure of module dependencies; sources are globbed so that new files are picked up"""
    done, todo = [], list(mods)
    while todo:
        m = todo.pop()
        if m in done: continue
        done.append(m); todo += MODULES[m]["deps"]
    src = []
    for m in sorted(done):
        for pat in MODULES[m]["src"]:
            for f in sorted(glob.glob(os.path.join(REPO, pat))):
                b = os.path.basename(f)
                if b in MODULES[m].get("skip", ()): continue
                if f not in src: src.append(f)
    return src, done

def build(pid, cfg, all_modules=False):
    bd = os.path.join(V, "_build", pid)
    shutil.rmtree(bd, ignore_errors=True)       # always start clean; ccache (keyed by content) makes this cheap
    os.makedirs(bd, exist_ok=True)
    core = [m for m in MODULES if m not in ("dpg", "ipdg", "fisher")]
    src, mods = module_sources(cfg["modules"] + (core if all_modules else []))
    src += [os.path.join(V, "engine", "pbt_main.cc")]
    src += [os.path.join(V, "checks", f) for f in cfg["files"]]
    incs = ["-I%s/lib" % REPO, "-I%s" % V, "-I%s/engine" % V, "-isystem /usr/include/eigen3"]
    for m in mods:
        incs += ["-I%s/%s" % (REPO, i) for i in MODULES[m].get("inc", ())]
    san = cfg.get("san", "")
    flags = "-Wno-error -w -O1 -g0 -std=gnu++20 %s %s %s %s" % (DEFS, san, cfg.get("flags", ""), " ".join(incs))
    cc = "ccache " if shutil.which("ccache") else ""
    L = ["ninja_required_version = 1.5", "rule cxx",
         "  command = %sg++ %s -MMD -MF $out.d -c $in -o $out" % (cc, flags), "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = g++ %s %s $in -o $out %s" % (san, cfg.get("ldflags", ""), LIBS), ""]
    objs = []
    # harness files first: they are the longest jobs
    src.sort(key=lambda s: (0 if "/checks/" in s or "quad_rules_tria" in s or "gmsh" in s else 1, s))
    for s in src:
        o = "obj/" + s.strip("/").replace("/", "_") + ".o"
        objs.append(o)
        L.append("build %s: cxx %s" % (o, s))
    L.append("build check: link %s" % " ".join(objs))
    open(os.path.join(bd, "build.ninja"), "w").write("\n".join(L) + "\n")
    env = dict(os.environ)
    env.update(CCACHE_DIR=os.path.join(V, "_build", "ccache"), CCACHE_MAXSIZE="4G", CCACHE_NOHASHDIR="1",
               CCACHE_TEMPDIR=os.path.join(V, "_build", "ccache", "tmp"))
    for k in ("CCACHE_DISABLE", "CCACHE_READONLY"): env.pop(k, None)
    r = subprocess.run(["ninja", "-C", bd, "-j", str(os.cpu_count() or 8)], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 and "undefined reference" in r.stdout and not all_modules:
        return build(pid, cfg, True)            # a module started to use another one: take all of them
    if r.returncode != 0:
        fails = [l for l in r.stdout.split("\n") if not l.startswith("[")]
        print("\n".join(fails)[-6000:])
        print("ERROR: building the check of %s failed" % pid)
        return None
    return os.path.join(bd, "check")

def main():
    if sys.argv[1] == "--setup":
        # nothing to prepare: every check builds from /repo's working tree; make sure that the tools are there
        for t in ("g++", "ninja"):
            if not shutil.which(t):
                print("missing tool", t)
                return 3
        os.makedirs(os.path.join(V, "_build"), exist_ok=True)
        return 0
    pid = sys.argv[1]
    extra = sys.argv[2:]
    cfg = CHECKS[pid]
    t0 = time.time()
    exe = build(pid, cfg)
    if exe is None: return 3
    print("built in %.1f s" % (time.time() - t0), flush=True)
    seed = os.environ.get("VERIF_SEED", "1")
    try: seed = str(abs(int(seed)))
    except ValueError: seed = "1"
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    known = os.path.join(V, "_build", pid, "known.tsv")
    with open(known, "w") as f:
        for line in open(os.path.join(V, "known_findings.jsonl")):
            line = line.strip()
            if not line or line.startswith("#") : continue
            k = json.loads(line)
            if k.get("status") != "known" or k["property"] != pid: continue
            f.write("\t".join([pid, k["sub"], k["key"], k.get("match", ""), k["what"].replace("\n", " ").replace("\t", " ")]) + "\n")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    cmd = [exe, "--prop", pid, "--tier", tier, "--seed", seed, "--out", os.path.join(V, "evidence", pid + ".json"),
           "--replaydir", os.path.join(V, "_build", "replays"), "--known", known] + cfg.get("args", []) + extra
    env = dict(os.environ)
    env.setdefault("OMP_NUM_THREADS", "1")
    if cfg.get("san"):
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=2048"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=0"
    r = subprocess.run(cmd, env=env)
    rc = r.returncode
    if rc not in (0, 1):
        print("ERROR: engine ended with", rc)
        return 3
    return rc

if __name__ == "__main__":
    sys.exit(main())

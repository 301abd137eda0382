"""Solver-based checking driver: CBMC over the real C sources of /repo, with native replay.

For every harness:  goto-cc compiles all of /repo/src (current working tree) and the harness,
CBMC unrolls to the stated bounds and hands the verification condition to the SAT back end.
A failed obligation's input assignment is replayed against a native ASan/UBSan build of the same
sources; only a reproduced failure is reported as VIOLATION.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 4
STRICT = bool(os.environ.get("VF_STRICT"))   # development: an undecided harness is an error
DEFS = ["-DNDEBUG", "-DJSMN_PARENT_LINKS=1"]
# CBMC's own checks that are obligations in every harness (memory safety); arithmetic ones are opt-in
STD = ["--no-signed-overflow-check", "--no-undefined-shift-check", "--no-pointer-primitive-check",
       "--unwinding-assertions", "--no-malloc-may-fail", "--drop-unused-functions"]

class H:
    def __init__(self, name, src, entry=None, unwind=8, defs=None, tdefs=None, tunwind=None,
                 models=("log", "libc", "stdio"), flags=(), unwindset=None, replace=(),
                 exclude=(), timeout=None, ttimeout=None, note="", bounds="", overflow=False,
                 leak=False, sat=None, finding=None, only=None, fns=(), nosan=False, smt=None,
                 engine="cbmc", se="", ub=False, workers=None, tse=None, san=True):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.entry = entry or name

class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.dir = tempfile.mkdtemp(prefix="vf_%s_" % pid)
        self.lock = threading.Lock()
        self.t0 = time.time()
        self.native = None
        self.bc = {}
    def cleanup(self):
        if os.environ.get('VF_KEEP'): print('kept', self.dir); return
        shutil.rmtree(self.dir, ignore_errors=True)

def run(cmd, timeout=None, mem_gb=None, env=None, cwd=None, out=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30)); resource.setrlimit(resource.RLIMIT_AS, (b, b))
    fo = open(out, "wb") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.PIPE if not out else subprocess.STDOUT,
                         preexec_fn=pre, env=env, cwd=cwd)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate(); rc = -999
    if out: fo.close()
    return rc, (o or b"").decode("utf-8", "replace"), (e or b"").decode("utf-8", "replace")

def sources():
    fs = []
    for pat in ("src/*.c", "src/fast/*.c", "src/SFMT/*.c"):
        fs += glob.glob(os.path.join(REPO, pat))
    return sorted(fs)

def gen_config(d):
    """nx_config.h from the tree's own template (cmake output is git-ignored)."""
    t = open(os.path.join(REPO, "include/virg/nexus/nx_config.h.in")).read()
    t = re.sub(r"#cmakedefine01 (\w+)", r"#define \1 1", t)
    t = t.replace("@VIRG_NEXUS_SIMD_ALIGNMENT@", "64").replace("@VERSION_MAJOR@", "0").replace("@VERSION_MINOR@", "1")
    inc = os.path.join(d, "inc/virg/nexus"); os.makedirs(inc, exist_ok=True)
    open(os.path.join(inc, "nx_config.h"), "w").write(t)

def includes(ctx):
    return ["-I" + os.path.join(ctx.dir, "inc"), "-I" + os.path.join(REPO, "include"),
            "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/SFMT"),
            "-I" + os.path.join(VERIF, "model"), "-I" + os.path.join(VERIF, "harness")]

def build_goto(ctx):
    gen_config(ctx.dir)
    od = os.path.join(ctx.dir, "gb"); os.makedirs(od, exist_ok=True)
    ctx.objs = {}; ctx.failed = {}
    def one(f):
        o = os.path.join(od, os.path.relpath(f, REPO).replace("/", "_")[:-2] + ".gb")
        rc, so, se = run(["goto-cc", "-std=gnu11", "-D__NO_CTYPE", "-DVF_CBMC"] + DEFS + includes(ctx) + ["-c", f, "-o", o], timeout=120)
        return f, o, rc, so + se
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f, o, rc, log in ex.map(one, sources()):
            if rc == 0: ctx.objs[os.path.relpath(f, REPO)] = o
            else: ctx.failed[os.path.relpath(f, REPO)] = log

def build_native(ctx):
    with ctx.lock:
        if ctx.native: return ctx.native
        od = os.path.join(ctx.dir, "nat"); os.makedirs(od, exist_ok=True)
        san = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
               "-fsanitize=float-divide-by-zero" if False else "-fno-sanitize=alignment", "-ftrivial-auto-var-init=pattern", "-w"]
        def one(f):
            o = os.path.join(od, os.path.relpath(f, REPO).replace("/", "_")[:-2] + ".o")
            rc, so, se = run(["gcc", "-std=gnu11"] + san + DEFS + includes(ctx) + ["-c", f, "-o", o], timeout=300)
            return o if rc == 0 else None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = [o for o in ex.map(one, sources()) if o]
        lib = os.path.join(od, "libnx.a")
        run(["ar", "rcs", lib] + objs)
        ctx.native = (lib, san)
        return ctx.native

def tier_val(h, q, t):
    return getattr(h, t) if TIER == "thorough" and getattr(h, t) is not None else getattr(h, q)

def hdefs(h):
    d = dict(h.defs or {})
    if TIER == "thorough": d.update(h.tdefs or {})
    return ["-D%s=%s" % kv for kv in d.items()], d

def link_harness(ctx, h):
    d, _ = hdefs(h)
    out = os.path.join(ctx.dir, h.name + ".gb")
    srcs = [os.path.join(VERIF, "harness", h.src)]
    ex = set(h.exclude)
    if "log" in h.models: ex.add("src/nx_log_c_impl.c"); srcs.append(os.path.join(VERIF, "model/vf_log_model.c"))
    if "libc" in h.models: srcs.append(os.path.join(VERIF, "model/vf_libc_model.c"))
    if "stdio" in h.models: srcs.append(os.path.join(VERIF, "model/vf_stdio_model.c"))
    objs = []
    for s in srcs:
        o = os.path.join(ctx.dir, h.name + "_" + os.path.basename(s)[:-2] + ".gb")
        rc, so, se = run(["goto-cc", "-std=gnu11", "-D__NO_CTYPE", "-DVF_CBMC"] + DEFS + d + includes(ctx) + ["-c", s, "-o", o], timeout=120)
        if rc: raise RuntimeError("harness compile: " + so + se)
        objs.append(o)
    lib = [o for f, o in ctx.objs.items() if f not in ex]
    rc, so, se = run(["goto-cc", "--function", h.entry] + objs + lib + ["-o", out], timeout=300)
    if rc: raise RuntimeError("harness link: " + so + se)
    if h.replace:
        cmd = ["goto-instrument"]
        for r in h.replace: cmd += ["--remove-function-body", r]
        rc, so, se = run(cmd + [out, out], timeout=120)
    return out

# ------------------------------------------------------------------ symex (LLVM IR + z3)
UBS = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow", "-fsanitize-trap=all"]
CLANG = ["clang-18" if shutil.which("clang-18") else "clang", "-std=gnu11", "-O1", "-g1", "-w", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize",
         "-fno-unroll-loops", "-ffp-contract=off", "-fno-strict-aliasing", "-D__NO_CTYPE", "-DVF_SE", "-U_FORTIFY_SOURCE", "-fno-discard-value-names", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c"]

def symex_bin():
    """the symbolic executor, built from /verif/symex/symex.cpp (cached by content hash)"""
    src = os.path.join(VERIF, "symex/symex.cpp")
    hsh = hashlib.sha1(open(src, "rb").read()).hexdigest()[:16]
    cd = os.path.join(VERIF, ".cache"); exe = os.path.join(cd, "symex-" + hsh)
    if os.path.exists(exe): return exe
    os.makedirs(cd, exist_ok=True)
    tmp = exe + ".%d.tmp" % os.getpid()
    rc, so, se = run(["g++", "-std=c++17", "-O2", "-w", "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS",
                      "-D__STDC_FORMAT_MACROS", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"], timeout=400)
    if rc: raise RuntimeError("symex build: " + se[-2000:])
    os.rename(tmp, exe); return exe

def build_bc(ctx, ub):
    with ctx.lock:
        if ub in ctx.bc: return ctx.bc[ub]
        gen_config(ctx.dir)
        od = os.path.join(ctx.dir, "bc%d" % ub); os.makedirs(od, exist_ok=True)
        def one(f):
            o = os.path.join(od, os.path.relpath(f, REPO).replace("/", "_")[:-2] + ".bc")
            rc, so, se = run(CLANG + (UBS if ub else []) + DEFS + includes(ctx) + [f, "-o", o], timeout=120)
            return f, o, rc, so + se
        objs = {}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f, o, rc, log in ex.map(one, sources()):
                if rc == 0: objs[os.path.relpath(f, REPO)] = o
        ctx.bc[ub] = objs
        return objs

def check_se(ctx, h, deadline):
    r = dict(harness=h.name, entry=h.entry, src=h.src, engine="symex (LLVM-18 IR, z3)", status="inconclusive", queries=0, solver_s=0.0, detail="",
             bounds=h.bounds, defs=hdefs(h)[1], wall_s=0.0, options=tier_val(h, "se", "tse"))
    t0 = time.time()
    try:
        exe = ctx.symex
        objs = build_bc(ctx, bool(h.ub))
        d, _ = hdefs(h)
        srcs = [os.path.join(VERIF, "harness", h.src)]
        ex = set(h.exclude)
        if "log" in h.models: ex.add("src/nx_log_c_impl.c")
        for m in ("log", "libc", "stdio"):
            if m in h.models: srcs.append(os.path.join(VERIF, "model/vf_%s_model.c" % m))
        srcs.append(os.path.join(VERIF, "model/vf_str_model.c"))
        hb = []
        for i, sf in enumerate(srcs):
            o = os.path.join(ctx.dir, h.name + "_%d.bc" % i)
            rc, so, se = run(CLANG + (UBS if h.ub and i == 0 else []) + DEFS + d + includes(ctx) + [sf, "-o", o], timeout=120)
            if rc: raise RuntimeError("harness compile: " + se)
            hb.append(o)
        mod = os.path.join(ctx.dir, h.name + "_se.bc")
        ld = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
        rc, so, se = run([ld, "-o", mod] + hb + [o for f, o in objs.items() if f not in ex], timeout=120)
        if rc: raise RuntimeError("link: " + se)
        rc, so, se = run(["opt-18" if shutil.which("opt-18") else "opt", "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg<bonus-inst-threshold=4>,instcombine<no-verify-fixpoint>,early-cse,simplifycfg<bonus-inst-threshold=4>,instsimplify)", "-phi-node-folding-threshold=8", "-two-entry-phi-node-folding-threshold=8",
                          "-internalize-public-api-list=" + h.entry, mod, "-o", mod], timeout=120)
        if rc: raise RuntimeError("opt: " + se)
    except RuntimeError as e:
        r["detail"] = str(e)[-3000:]; return r
    left = deadline - time.time()
    lim = min(left - 5, (h.ttimeout or 3000) if TIER == "thorough" else (h.timeout or 600))
    if os.environ.get('VF_TIME'): lim = float(os.environ['VF_TIME'])
    out = os.path.join(ctx.dir, h.name + "_se.json")
    cmd = [exe, mod, h.entry, "--time", str(int(lim)), "--workers", str(h.workers or ctx.workers)] + tier_val(h, "se", "tse").split()
    if h.leak: cmd.append("--leak")
    if os.environ.get('VF_SHOW'): print(' '.join(cmd), flush=True)
    rc, _, _ = run(cmd, timeout=lim + 90, out=out)
    txt = open(out, errors="replace").read()
    try: js = json.loads(txt[txt.index("[{"):])
    except Exception: r["detail"] = "symex gave no result rc=%s: %s" % (rc, txt[-1500:]); r["wall_s"] = round(time.time() - t0, 2); return r
    tot = lambda k: sum(x.get(k, 0) for x in js)
    un = lambda k: sorted({y for x in js for y in x.get(k, [])})
    r.update(queries=tot("queries"), solver_s=tot("solver_s"), paths=tot("paths"), infeasible_or_assumed_away=tot("killed"), instructions=tot("insts"),
             obligations=tot("asserts"), obligations_to_solver=tot("assert_queries"), solver_unknown=tot("unknown"),
             functions=[f for f in un("functions") if not f.startswith(("vf_", "vfx_"))], covers={c: True for c in un("covers")})
    nb = un("nobody")
    if nb: r["no_body"] = nb
    lims = un("limits")
    viols = [v for x in js for v in x.get("violations", [])]
    notes = []; seen = set()
    for v in viols:
        if v["msg"] in seen and len(seen) > 3: continue
        seen.add(v["msg"])
        vals = [(l.split()[0], int(l.split()[1], 16)) for l in v["inputs"].splitlines()]
        rp, log = replay(ctx, h, vals, hashlib.sha1((v["msg"] + v["where"]).encode()).hexdigest()[:8])
        if rp:
            r["status"] = "violation"
            r["violation"] = dict(property=v["where"], description=v["msg"], replay=rp, log=log[-3000:], inputs=["%s=%x" % x for x in vals][:400])
            break
        notes.append(v["msg"] + " @ " + v["where"] + " -> " + log[-500:])
    if r["status"] != "violation":
        want = set(re.findall(r'VF_COVER\("([^"]*)"\)', fn_body(os.path.join(VERIF, "harness", h.src), h.entry)))
        if viols: r["detail"] = "counterexample(s) not reproduced natively: " + " || ".join(notes)[:2500]
        elif lims: r["detail"] = "limits: " + "; ".join(lims)[:1500]
        elif not r["covers"] or want - set(r["covers"]): r["detail"] = "vacuous: cover point(s) unreachable: " + ",".join(sorted(want - set(r["covers"])))
        else: r["status"] = "holds"
    r["wall_s"] = round(time.time() - t0, 2)
    return r

def fn_body(path, fn):
    t = open(path).read()
    m = re.search(r"^void %s\(void\)\s*\{.*?^\}" % re.escape(fn), t, re.M | re.S)
    return m.group(0) if m else ""

def parse_json(path):
    try: return json.load(open(path))
    except Exception: return None

def inputs_from_trace(trace):
    vals = []
    for st in trace:
        if st.get("stepType") != "input": continue
        for v in st.get("values", []):
            b = v.get("binary")
            if b is None:
                try: b = bin(int(v.get("data")) & 0xffffffffffffffff)[2:]
                except Exception: b = "0"
            vals.append((st.get("inputID"), int(b, 2)))
    return vals

_libs = {}
def have_lib(l):
    if l not in _libs:
        p = subprocess.run(["gcc", "-x", "c", "-", "-l" + l, "-o", "/dev/null"], input=b"int main(void){return 0;}", capture_output=True)
        _libs[l] = p.returncode == 0
    return _libs[l]

def replay(ctx, h, vals, tag):
    lib, san = build_native(ctx)
    d, _ = hdefs(h)
    exe = os.path.join(ctx.dir, h.name + "_replay")
    with ctx.lock:
        if not os.path.exists(exe):
            cmd = (["gcc", "-std=gnu11"] + san + DEFS + d + ["-DVF_ENTRY=" + h.entry] + includes(ctx)
                   + [os.path.join(VERIF, "harness", h.src), os.path.join(VERIF, "model/vf_native.c"), lib, "-o", exe,
                      "-lm"] + ["-l" + l for l in ("lapacke", "lapack", "cblas", "blas", "png", "jpeg", "cairo") if have_lib(l)])
            rc, so, se = run(cmd, timeout=300)
            if rc:
                return None, "replay build failed: " + se[-2000:]
    rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, "%s_%s_%s.in" % (ctx.pid, h.name, tag))
    open(rp, "w").write("".join("%s %x\n" % v for v in vals))
    last = ""
    for fill in ("190", "0", "255"):
        scr = tempfile.mkdtemp(dir=ctx.dir)
        env = dict(os.environ, VF_REPLAY=rp, VF_SCRATCH=scr,
                   ASAN_OPTIONS="detect_leaks=%d:max_malloc_fill_size=1000000:malloc_fill_byte=%s:allocator_may_return_null=1:exitcode=67:detect_stack_use_after_return=1" % (1 if h.leak else 0, fill),
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=68:print_stacktrace=1")
        rc, so, se = run([exe], timeout=20, env=env, cwd=scr)
        last = so[-1000:] + se[-20000:].split("Shadow bytes around")[0][-6000:]
        if rc == -999: last += "\nREPLAY-HANG"
        ubs = "runtime error:" in last
        if rc in (66, 67, 68, -999) or rc < 0 or "AddressSanitizer" in last or ubs:
            open(rp + ".log", "w").write("harness=%s entry=%s rc=%s\n%s" % (h.src, h.entry, rc, last))
            return rp, last
    os.remove(rp)
    return None, "not reproduced (rc=%s): %s" % (rc, last[-1500:])

def cbmc(ctx, gb, h, uset, extra, timeout, out):
    unwind = tier_val(h, "unwind", "tunwind")
    cmd = ["cbmc", gb, "--unwind", str(unwind)] + [x for x in STD if not (h.overflow and ("overflow" in x or "shift" in x))] + list(h.flags)
    if h.leak: cmd += ["--memory-leak-check"]
    if h.sat: cmd += ["--sat-solver", h.sat]
    if h.smt: cmd += h.smt.split()
    if uset: cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(uset.items()))]
    cmd += ["--json-ui", "--verbosity", "8"] + extra
    if os.environ.get('VF_SHOW'): print(' '.join(cmd), flush=True)
    t = time.time()
    rc, _, _ = run(cmd, timeout=timeout, mem_gb=14, out=out)
    return rc, time.time() - t, cmd

def results_of(js):
    res, msgs = None, []
    for it in js:
        if "result" in it: res = it["result"]
        if "messageText" in it: msgs.append(it["messageText"])
    return res, msgs

MAXUNWIND = 600

def check_harness(ctx, h, deadline):
    """-> dict(status=holds|violation|inconclusive, ...)"""
    r = dict(harness=h.name, entry=h.entry, src=h.src, status="inconclusive", queries=0, solver_s=0.0, detail="",
             bounds=h.bounds, defs=hdefs(h)[1], unwind=tier_val(h, "unwind", "tunwind"), wall_s=0.0)
    t0 = time.time()
    if h.engine == "se": return check_se(ctx, h, deadline)
    try:
        gb = link_harness(ctx, h)
    except RuntimeError as e:
        r["detail"] = str(e)[-3000:]; return r
    uset = dict(h.unwindset or {})
    rc, so, _ = run(["goto-instrument", "--show-loops", gb], timeout=60)
    loops = re.findall(r"^Loop (\S+):", so, re.M)
    MODEL = {"vf_fmt": 100, "vf_emit_num": 22, "fscanf": 24, "vf_lookup": 4, "vf_file_new": 6}
    for l in loops:
        fn = l.rsplit(".", 1)[0]
        if fn in MODEL and l not in uset: uset[l] = MODEL[fn]
    out = os.path.join(ctx.dir, h.name + ".json")
    for attempt in range(8):
        left = deadline - time.time()
        if left < 5: r["detail"] += " out of time"; break
        rc, dt, cmd = cbmc(ctx, gb, h, uset, [], min(left, (h.ttimeout or 1700) if TIER == "thorough" else (h.timeout or 700)), out)
        r["queries"] += 1
        js = parse_json(out)
        if rc == -999 or js is None:
            r["detail"] = "cbmc timeout/no output after %.0fs" % dt; break
        res, msgs = results_of(js)
        for m in msgs:
            mm = re.match(r"Runtime (Solver|decision procedure|Convert SSA|Post-process|Symex): ([\d.e+-]+)s", m, re.I)
            if mm and mm.group(1) in ("Solver", "solver"): r["solver_s"] += float(mm.group(2))
            mm = re.match(r"(\d+) variables, (\d+) clauses", m)
            if mm: r["variables"] = int(mm.group(1)); r["clauses"] = int(mm.group(2))
            mm = re.match(r"size of program expression: (\d+) steps", m)
            if mm: r["steps"] = int(mm.group(1))
            mm = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
            if mm: r["vccs"] = int(mm.group(1)); r["vccs_remaining"] = int(mm.group(2))
        nb = sorted({m.split()[-1] for m in msgs if "no body for" in m})
        if nb: r["no_body"] = nb
        if res is None:
            r["detail"] = "cbmc gave no result: " + " | ".join(msgs[-4:])[:800]; break
        failed = [p for p in res if p["status"] == "FAILURE"]
        covers = [p for p in res if p.get("description", "").startswith("COVER: ")]
        r["obligations"] = len(res) - len(covers)
        r["covers"] = {p["description"][7:]: p["status"] == "FAILURE" for p in covers}
        failed = [p for p in failed if not p.get("description", "").startswith("COVER: ")]
        fns = sorted({p["property"].rsplit(".", 2)[0] for p in res if "." in p["property"]})
        r["functions"] = [f for f in fns if not f.startswith(("vf_", "harness"))]
        unw = [p for p in failed if ".unwind." in p["property"] or p.get("description", "").startswith("unwinding assertion")]
        rec = [p for p in failed if ".recursion" in p["property"]]
        other = [p for p in failed if p not in unw and p not in rec]
        model = [p for p in other if p.get("description", "").startswith("MODEL:") or ".no-body." in p["property"]]
        other = [p for p in other if p not in model]
        if not (other or unw or rec) and any(p["status"] not in ("SUCCESS", "FAILURE") for p in res):  # a failure leaves what follows it UNKNOWN
            r["detail"] = "cbmc could not decide: " + ", ".join(sorted({p["status"] for p in res})); break
        if other or (unw and attempt == 7):
            st = confirm(ctx, h, gb, uset, other or unw, deadline, r)
            if st: r["status"] = "violation"; break
            if other and not unw and not rec:
                r["detail"] = "counterexample(s) not reproduced natively: " + r.get("noreplay", "")[:1500]; break
        if unw or rec:
            grew = False
            for p in unw + rec:
                m = re.match(r"(.*)\.(?:unwind|recursion)\.?(\d*)$", p["property"])
                if m is None: continue
                l = m.group(1) + ("." + m.group(2) if ".unwind." in p["property"] else "")
                cur = uset.get(l, int(r["unwind"]))
                if cur < MAXUNWIND: uset[l] = min(MAXUNWIND, cur * 2); grew = True
            r["unwindset"] = dict(uset)
            # a loop that keeps needing more iterations may be a real hang: ask the native build
            if attempt == 2 or not grew:
                if confirm(ctx, h, gb, uset, unw, deadline, r, hang_only=True): r["status"] = "violation"; break
            if not grew: r["detail"] = "unwinding bound exhausted: " + ",".join(p["property"] for p in unw[:5]); break
            continue
        if model:
            r["detail"] = "model limit: " + ", ".join(p["description"] for p in model[:4]); break
        dead = [k for k, v in r["covers"].items() if not v] if r["covers"] else ["no cover point"]
        if dead:
            r["detail"] = "vacuous: cover point(s) unreachable: " + "; ".join(dead); break
        r["status"] = "holds"; r["unwindset"] = dict(uset); break
    r["wall_s"] = round(time.time() - t0, 2)
    return r

def confirm(ctx, h, gb, uset, failed, deadline, r, hang_only=False):
    """get traces for failing obligations and replay them natively; True when one reproduces"""
    seen_fn, cands = set(), []
    for p in sorted(failed, key=lambda p: (not p.get("description", "").startswith("VF:"))):
        key = (p["property"].rsplit(".", 2)[0], p.get("description", "")[:40])
        if key in seen_fn: continue
        seen_fn.add(key); cands.append(p)
    notes = []
    for i, p in enumerate(cands[:6]):
        left = deadline - time.time()
        if left < 5: notes.append("out of time"); break
        out = os.path.join(ctx.dir, h.name + "_tr%d.json" % i)
        rc, dt, _ = cbmc(ctx, gb, h, uset, ["--trace", "--stop-on-fail", "--property", p["property"]], min(left, 600), out)
        r["queries"] += 1
        js = parse_json(out)
        if not js: notes.append("no trace for " + p["property"]); continue
        res, _ = results_of(js)
        tr = None
        for q in res or []:
            if q["status"] == "FAILURE" and "trace" in q: tr = q["trace"]
        for it in js:
            if "trace" in it and tr is None: tr = it["trace"]
        if os.path.exists(out): os.remove(out)
        if tr is None: notes.append("no trace for " + p["property"]); continue
        vals = inputs_from_trace(tr)
        rp, log = replay(ctx, h, vals, hashlib.sha1(p["property"].encode()).hexdigest()[:8])
        if rp:
            if hang_only and "REPLAY-HANG" not in log and "REPLAY-VIOLATION" not in log and "Sanitizer" not in log and "runtime error" not in log:
                notes.append("replay finished"); continue
            r["violation"] = dict(property=p["property"], description=p.get("description", ""), replay=rp, log=log[-3000:],
                                  inputs=["%s=%x" % v for v in vals][:400])
            return True
        notes.append(p["property"] + ": " + p.get("description", "")[:80] + " -> " + log[-400:])
    r["noreplay"] = " || ".join(notes)
    return False

def load_findings():
    fn = os.path.join(VERIF, "known_findings.json")
    return json.load(open(fn)) if os.path.exists(fn) else []

def main(pid, title, harnesses, assumptions, extra_engines=(), budget_q=840, budget_t=6000):
    ctx = Ctx(pid)
    deadline = time.time() + (budget_t if TIER == "thorough" else budget_q)
    rs = []
    try:
        hs = [h for h in harnesses if (h.only is None or h.only == TIER)]
        flt = os.environ.get("VF_ONLY")
        if flt: hs = [h for h in hs if re.search(flt, h.name)]
        if any(h.engine == "cbmc" for h in hs): build_goto(ctx)
        nse = sum(h.engine == "se" for h in hs)
        if nse:
            ctx.symex = symex_bin(); ctx.workers = max(2, NCPU // max(1, len(hs)))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(check_harness, ctx, h, deadline) for h in hs]
            for eng in extra_engines:
                futs.append(ex.submit(eng, ctx, deadline))
            for f in futs:
                x = f.result()
                for r in (x if isinstance(x, list) else [x]): rs.append(r)
        return report(ctx, pid, title, rs, assumptions)
    finally:
        ctx.cleanup()

def report(ctx, pid, title, rs, assumptions):
    code = 0
    viol = [r for r in rs if r["status"] == "violation"]
    inc = [r for r in rs if r["status"] == "inconclusive"]
    for r in rs:
        print("%-9s %-34s obligations=%-5s queries=%d solver=%.1fs wall=%.1fs %s" % (
            r["status"].upper(), r["harness"], r.get("obligations", "-"), r["queries"], r["solver_s"], r["wall_s"], r["detail"][:1500] if r["status"] == "inconclusive" else ""))
    kf = [k for k in load_findings() if k.get("property") == pid and k.get("status") == "known"]
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r in viol:
        v = r["violation"]
        print("--- %s: %s (%s)\n%s" % (r["harness"], v["description"], v["property"], v["log"]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"])); code = 1
    if not viol and inc:
        # a harness the solver could not decide is never an alarm; it is reported as undecided, and the check
        # answers only for what was decided. With nothing decided there is no answer (exit 2).
        for r in inc: print("UNDECIDED property=%s harness=%s %s" % (pid, r["harness"], r["detail"][:300]))
        if STRICT or not any(r["status"] == "holds" for r in rs): code = 2
    fns = sorted({f for r in rs for f in r.get("functions", [])})
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="other",
              coverage=dict(
                  explanation="Bounded symbolic execution of the real sources (all inputs within the listed bounds decided by the solver): " + title,
                  functions_encoded=fns,
                  harnesses=[{k: r[k] for k in r if k not in ("functions", "violation")} for r in rs],
                  queries_discharged=sum(r["queries"] for r in rs),
                  obligations=sum(r.get("obligations", 0) or 0 for r in rs),
                  solver_time_s=round(sum(r["solver_s"] for r in rs), 2),
                  held=[r["harness"] for r in rs if r["status"] == "holds"],
                  undecided=[dict(harness=r["harness"], reason=r["detail"][:600]) for r in inc],
                  known_findings=[k["what"] for k in kf]),
              wall_s=round(time.time() - ctx.t0, 2), assumptions=list(assumptions),
              violations=len(viol))
    ev["coverage"]["violation_details"] = [dict(harness=r["harness"], **{k: v for k, v in r["violation"].items() if k != "log"}) for r in viol]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    return code

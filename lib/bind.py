"""The bindings: life cycles of the specification, run on the binding and on the C library."""
import glob
import json
import os
import random
import resource
import shutil
import subprocess

import gen
from gen import INF, NAN
from vlib import NCPU, REPO, VERIF, CheckError, dbl, hx, run, version, words

PYTHON = "/opt/vp/venv/bin/python"
MAXCAP = 2 ** 64


# --------------------------------------------------------------- sources ---
def tree(ck):
    """A scratch copy of the sources with a fresh dist/spot.h."""
    d = ck.path("tree")
    if not os.path.exists(d):
        os.makedirs(d)
        for x in ("src", "include", "python", "wasm"):
            shutil.copytree(f"{REPO}/{x}", f"{d}/{x}", ignore=shutil.ignore_patterns("node_modules", "build", "dist"))
        for x in os.listdir(REPO):
            if os.path.isfile(f"{REPO}/{x}"):
                shutil.copy(f"{REPO}/{x}", d)
        os.makedirs(f"{d}/dist", exist_ok=True)
        env = dict(os.environ, CC="gcc")
        for k in ("CFLAGS", "MAKEFLAGS", "MFLAGS", "LDFLAGS"):
            env.pop(k, None)
        run(["make", "-B", "CC=gcc", "api"], cwd=d, env=env)
        if not os.path.getsize(f"{d}/dist/spot.h"):
            raise CheckError("make api: empty dist/spot.h")
    return d


def py_module(ck, asan=False):
    d = tree(ck)
    m = ck.path("pymod-asan" if asan else "pymod")
    os.makedirs(m, exist_ok=True)
    so = f"{m}/libspot.abi3.so"
    inc = subprocess.run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"],
                         stdout=subprocess.PIPE, text=True).stdout.strip()
    opt = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] if asan else ["-O2"]
    run(["gcc", "-shared", "-fPIC", *opt, "-std=gnu99", f'-DVERSION="{version()}"', "-DPy_LIMITED_API=0x03060000",
         f"-I{inc}", "-Iinclude", "-Idist", *sorted(os.path.relpath(x, d) for x in glob.glob(f"{d}/src/*.c")),
         "python/libspotmodule.c", f"{VERIF}/harness/pycount.c",
         "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc", "-o", so], cwd=d)
    return m


# ---------------------------------------------------------------- scripts --
def life_cycles(ck, lang, count):
    """Every sequence of Depth operations on two objects, sampled."""
    out = ck.model("BindMC", "SPECIFICATION Spec\nCONSTANTS\n Objs = {1,2}\n Depth = %d\n Lang = \"%s\"\n Emit = TRUE\n"
                   "INVARIANTS Held EmitScripts\nCHECK_DEADLOCK FALSE\n" % (5 if ck.thorough else 4, lang),
                   "life cycles of two objects")
    items = [x[0] for x in gen.emitted(out)]
    r = random.Random(ck.seed * 7)
    return items if len(items) <= count else r.sample(items, count)


def walks(r, lang, count, length):
    """Longer random walks of the same specification on more objects."""
    res = []
    for _ in range(count):
        ph = {o: "absent" for o in range(1, r.choice([2, 3, 5]))}
        ops = []
        for _ in range(length):
            o = r.choice(list(ph))
            if ph[o] == "absent":
                op = r.choice(["new", "new", "new", "new", "newbad", "newtype"] + (["hollow"] if lang == "py" else []))
                ph[o] = {"new": "live", "hollow": "hollow"}.get(op, "absent")
            else:
                op = r.choice(["fit", "fit", "fit", "steps", "steps", "steps", "steps", "fitshort", "fittype", "badargs", "del"] +
                              (["reinit", "reinitbad"] if lang == "py" else []))
                if op == "reinit":
                    ph[o] = "live"
                if op == "del":
                    ph[o] = "absent"
            ops.append([op, o])
        res.append(ops)
    return res


def kwargs(r, bad=False, lang="py"):
    """A subset of the options."""
    low, disc, cap = ("low", "discard_anomalies", "max_excess") if lang == "py" else ("low", "discardAnomalies", "maxExcess")
    kw = {}
    level = 0.98
    if r.random() < 0.7:
        level = r.choice(gen.LEVELS + [0.9, 0.0, 0.999])
        kw["level"] = words(level)
    if r.random() < 0.5:
        kw[low] = r.choice([0, 1, 1, 2, -1])
    if r.random() < 0.5:
        kw[disc] = r.choice([0, 0, 1, 3, -5])
    if r.random() < 0.6:
        kw[cap] = r.choice([1, 2, 3, 5, 10, 200, 700])
    kw["q"] = words(r.choice([0.5, 1e-2, 1e-3, 1e-6, 0.99]) * (1 - level))
    if bad:
        k = r.choice(["q", "level", cap])
        if k == "q":
            kw["q"] = words(r.choice([0.0, 1.0, -0.5, 2.0, NAN, INF, 1 - level, -INF]))
        elif k == "level":
            kw["level"] = words(r.choice([1.0, 1.5, -0.1, NAN, INF, -INF]))
        else:
            kw[cap] = r.choice([0, 2 ** 61, 2 ** 62, 2 ** 64 - 1] if lang == "py" else [0, 10 ** 7, 2 ** 29, 2 ** 30 + 1, 2 ** 31])
    return kw


def expand(r, cycles, lang):
    """Concrete operations of a life cycle."""
    num, mem, wide = ["TypeError"], ["RuntimeError", "MemoryError"], ["OverflowError", "ValueError", "TypeError"]
    bad = {"fit none": num, "fit int": num, "fit str": num, "fit mixed": num, "fit nones": num, "fit badfloat": ["ValueError"],
           "fit nested": num, "fit missing": num, "fit complex": num, "step none": num, "step str": num, "step list": num,
           "step badfloat": ["ValueError"], "step missing": num, "step two": num, "step big": ["OverflowError"],
           "quant none": num, "quant str": num, "quant badfloat": ["ValueError"], "prob none": num, "prob dict": num,
           "prob badfloat": ["ValueError"], "set q": ["AttributeError", "TypeError"], "set n": ["AttributeError", "TypeError"]}
    badnew = {"noargs": num, "str": num, "none": num, "level str": num, "low str": num, "low float": num, "kw": num, "positional": num,
              "max str": num, "max float": num, "badfloat": ["ValueError"], "disc none": num,
              "max wide": mem, "max wider": mem, "low wide": wide, "disc wide": wide}
    kinds = ["list", "list", "tuple", "array", "numpy", "numpyslice", "deque", "ints", "sequence", "memoryview", "floatable",
             "float32", "range", "shuffled", "nested"] \
        if lang == "py" else ["whole", "view", "view", "tail", "whole"]
    res = []
    for ops in cycles:
        s = [["version", 0]]
        lowtail = {}
        for op, o in ops:
            if lang == "py" and r.random() < 0.06:
                s.append(["oom", o])
            if op in ("new", "newbad"):
                kw = kwargs(r, op == "newbad", lang)
                lowtail[o] = kw.get("low", 0)
                s.append(["new", o, kw, r.choice(["Spot", "Spot", "Sub"])])
            elif op == "newtype":
                if lang == "py":
                    k = r.choice(list(badnew))
                    s.append(["badnew", o, k, badnew[k]])
            elif op == "hollow":
                s.append(["hollow", o, r.randint(0, 1)])
            elif op in ("reinit", "reinitbad"):
                s.append(["reinit", o, kwargs(r, op == "reinitbad", lang)])
            elif op in ("fit", "fitshort"):
                n = r.randint(0, 4) if op == "fitshort" else r.choice([5, 6, 9, 30, 100, 100, 400, 1500] + [12000, 70000] * (r.random() < 0.03))
                data = gen.sgn(lowtail.get(o), gen.draw(r, r.choice(gen.KINDS), n, r.choice([1.0, 50.0]), r.choice([0.0, 7.0])))
                if op == "fit" and r.random() < 0.1:
                    data[r.randrange(n)] = r.choice([NAN, INF, -INF])
                if r.random() < 0.2:
                    data = [float(round(x)) if abs(x) < 1e9 else x for x in data]
                s.append(["fit", o, r.choice(kinds), [words(x) for x in data]])
            elif op == "fittype" and lang == "py":
                k = r.choice([x for x in bad if x.startswith("fit")])
                s.append(["bad", o, k, bad[k]])
            elif op == "badargs" and lang == "py":
                k = r.choice([x for x in bad if not x.startswith("fit")])
                s.append(["bad", o, k, bad[k]])
            elif op == "steps":
                for _ in range(r.choice([1, 3, 8])):
                    m = r.choice(["M", "M", "M", "M", "v", "F", "I", "N", "T"])
                    v = r.choice([0.0, 1.0, r.random(), r.random(), r.expovariate(1), -r.random(), 3.0]) if m == "M" else \
                        r.choice([r.gauss(0, 4), float(r.randint(-3, 40)), NAN, INF, -INF, -0.0])
                    s.append(["step", o, m, words(v)])
                s.append(["quant", o, r.choice("RvNT"), words(r.choice([r.random(), 10 ** -r.uniform(1, 6)]))])
                s.append(["prob", o, r.choice("MMvNT"), words(r.choice([r.expovariate(1), 0.0, 1.0]))])
                if r.random() < 0.4:
                    s.append(["quant", o, r.choice("RvNT"), words(r.choice([0.0, -0.0, 1.0, 1.5, -r.random(), NAN, INF, -INF, 5e-324]))])
                    s.append(["prob", o, r.choice("MMvNT"), words(r.choice([-r.random(), -r.expovariate(0.1), NAN, INF, -INF, 1e300]))])
                s.append(["dict", o])
            elif op == "del":
                s.append(["del", o])
        res.append(s)
    return res


# -------------------------------------------------- run and merge with C ---
def sanitized():
    """The environment of a Python with the sanitizers' run time, or None."""
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(LD_PRELOAD=lib, PYTHONMALLOC="malloc",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0",
               UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
    p = subprocess.run([PYTHON, "-c", "import numpy; print('sound')"], env=dict(os.environ, **env), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return env if p.returncode == 0 and p.stdout.strip() == "sound" else None


def run_binding(ck, cmd, ops, name, extra=None):
    """Run the operations on the binding, in NCPU processes; lists of events."""
    per = (len(ops) + NCPU - 1) // NCPU
    procs = []

    def limits():
        resource.setrlimit(resource.RLIMIT_CPU, (200, 210))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    for i in range(0, len(ops), per):
        f, t = ck.path(f"{name}-{i}.ops"), ck.path(f"{name}-{i}.run")
        json.dump(ops[i:i + per], open(f, "w"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONMALLOC="debug", PYTHONHASHSEED="0", MALLOC_PERTURB_="165",
                   OPENBLAS_NUM_THREADS="1")
        env.update(extra or {})
        procs.append((subprocess.Popen(cmd + [f, t], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                       errors="replace", preexec_fn=limits), t))
    res = []
    for p, t in procs:
        try:
            o, _ = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            raise CheckError(f"{name}: timed out")
        ev = []
        if os.path.exists(t):
            for line in open(t):
                try:
                    ev.append(json.loads(line))
                except json.JSONDecodeError:
                    pass  # cut by a crash
        if p.returncode < 0 or p.returncode in (132, 134, 136, 137, 139):
            if p.returncode == -9:
                raise CheckError(f"{name}: killed")
            if not ev:
                ev.append(dict(k="new", d=-1, id=0))
            ev.append(dict(k="crash", d=-1, status=p.returncode, output=o[:800] + o[-200:]))
        elif p.returncode != 0:
            raise CheckError(f"{name}: exit {p.returncode}\n{o[-3000:]}")
        res.append(ev)
    return res


def merge(ck, runs, name):
    """Attach to each operation the same call on the C library: trace files."""
    scripts, where = [], []
    for ev in runs:
        for e in ev:
            if e["k"] == "new":
                cur, slot, nxt = [], {}, 0
                scripts.append(cur)
                where.append([])
            if e["k"] != "op":
                continue
            op, d = e["op"], e["d"]
            line = None
            if op == "init":
                a = e["args"]
                line = f"init {nxt} {hx(dbl(a['q']))} {a['low']} {a['disc']} {hx(dbl(a['level']))} {a['cap']}"
                e["_slot"] = nxt
                if "objs" in e and int(a["cap"]) > 10 ** 6:  # more than the memory of the WebAssembly instance
                    line = "failin 0\n" + line + "\nfailin -1"
                nxt += 1
                if nxt > 60:
                    raise CheckError("too many objects in a script")
                if e["b"]["exc"] == "":
                    slot[d] = e["_slot"]
            elif op == "del":
                if d in slot:
                    del slot[d]
            elif op in ("fit", "step", "quant", "prob", "dict"):
                if d in slot:
                    if op == "fit":
                        line = f"fit {slot[d]} {len(e['args'])} " + " ".join(hx(dbl(x)) for x in e["args"])
                    elif op == "dict":
                        line = f"dict {slot[d]}"
                    else:
                        line = f"{op} {slot[d]} v {hx(dbl(e['args']))}"
                else:
                    e["op"] = "hollow"
            elif op in ("version", "error"):
                e["c"] = dict(ret=e.get("code", 0))
            e.pop("_slot", None)
            if line:
                cur.append(line)
                where[-1].append(e)
    got = {}
    for events in ck.events_of(ck.execute(scripts, name + "-c")):
        got[events[0]["id"]] = events[1:]
    cut = 0
    for i, es in enumerate(where):
        g = got.get(i, [])
        for e, c in zip(es, g):
            if c["k"] == "crash":
                break
            e["c"] = {k: c[k] for k in ("ret", "st", "cursor", "filled", "led", "data") if k in c and not (k == "data" and e["op"] == "fit")}
            e.pop("args", None)
        if len([c for c in g if c["k"] != "crash"]) < len(es):
            cut += 1
    # the C library crashed: keep the calls before
    for ev in runs:
        keep, skip = [], False
        for e in ev:
            if e["k"] == "new":
                skip = False
            if e["k"] == "op" and "args" in e and e["op"] != "hollow":
                skip = True
            if not skip or e["k"] == "crash":
                keep.append(e)
        ev[:] = keep
    ck.cut = cut
    files = []
    for i, ev in enumerate(runs):
        f = ck.path(f"{name}-{i}.ndjson")
        with open(f, "w") as h:
            for e in ev:
                h.write(json.dumps(e, separators=(",", ":")) + "\n")
        files.append(f)
    return files


def py_check(ck):
    m = py_module(ck)
    r = random.Random(ck.seed * 31)
    cycles = life_cycles(ck, "py", 12000 if ck.thorough else 900) + walks(r, "py", 600 if ck.thorough else 80, 30)
    r.shuffle(cycles)
    ops = expand(r, cycles, "py")
    runs = run_binding(ck, [PYTHON, f"{VERIF}/harness/pyrun.py", m], ops, "py")
    env = sanitized()
    if env:  # some of them with a module built for the address and undefined behaviour sanitizers
        part = ops if ck.thorough else r.sample(ops, 250)
        runs += run_binding(ck, [PYTHON, f"{VERIF}/harness/pyrun.py", py_module(ck, True)], part, "pysan", env)
    files = merge(ck, runs, "py")
    ck.validate("BindTrace", ["Bind"], files, "python objects next to C detectors", None, env={"BIND_LANG": "py"})
    if ck.cut and not ck.violations:
        raise CheckError("the C library crashed on some of the calls")


# -------------------------------------------------------------- javascript --
ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"


def js_module(ck):
    d = tree(ck)
    m = ck.path("jsmod")
    os.makedirs(m, exist_ok=True)
    rt = f"{VERIF}/harness/wasm"
    fl = ["clang", "--target=wasm32", "-O3", "-std=c99", "-nostdlib", "-ffreestanding", "-fno-builtin", f"-I{rt}/include",
          "-Iinclude", f'-DVERSION="{version()}"', "-Dmain=verif_main", "-w", "-c"]
    objs = []
    for src in [os.path.relpath(x, d) for x in sorted(glob.glob(f"{d}/src/*.c"))] + ["wasm/main.c", f"{rt}/rt.c"]:
        o = f"{m}/{os.path.basename(src)[:-2]}.o"
        run(fl + [src, "-o", o], cwd=d)
        objs.append(o)
    run(["wasm-ld", "--no-entry", "--export-all", "-z", "stack-size=1048576", "--initial-memory=67108864", *objs,
         "-o", f"{m}/libspot.wasm"])
    run([ESBUILD, "wasm/index.ts", "--format=esm", "--target=es2022", f"--outfile={m}/index.js"], cwd=d)
    for x in ("libspot.core.js", "run.mjs"):
        shutil.copy(f"{rt}/{x}", m)
    open(f"{m}/package.json", "w").write('{"type":"module"}')
    return m


def js_check(ck):
    m = js_module(ck)
    r = random.Random(ck.seed * 37)
    cycles = life_cycles(ck, "js", 12000 if ck.thorough else 700) + walks(r, "js", 600 if ck.thorough else 80, 30)
    r.shuffle(cycles)
    ops = expand(r, cycles, "js")
    for s in ops:
        for op in s:
            if op[0] == "new":
                for k in ("low", "discardAnomalies", "level", "maxExcess"):
                    if k not in op[2] and r.random() < 0.1:
                        op[2][k] = "undef"
        s.insert(r.randrange(len(s) + 1), ["error", 0, r.choice([999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 0, -1, 2000])])
    ops = [[op for op in s if op[0] not in ("dict", "bad", "badnew", "hollow", "reinit")] for s in ops]
    runs = run_binding(ck, ["node", "--expose-gc", f"{m}/run.mjs"], ops, "js")
    files = merge(ck, runs, "js")
    ck.validate("BindTrace", ["Bind"], files, "javascript objects next to C detectors", None, env={"BIND_LANG": "js"})
    if ck.cut and not ck.violations:
        raise CheckError("the C library crashed on some of the calls")

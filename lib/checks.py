"""One function per property: model, generated behaviours, traces of the real code."""
import math
import random

import bind
import gen
from gen import INF, NAN, fit, init
from vlib import dbl, hx

STEP_OPS = '{"T-1","T","T+1","Z-1","Z","Z+1","B","E1","E2","F","+inf","-inf","NaN"}'
FIT_OPS = '{"fit5","fit9","fitconst","fitshort","fitties","fit0"}'
QUERY_OPS = '{"quant","prob"}'


def cfg(consts, invariants, props=""):
    return ("SPECIFICATION Spec\nCONSTANTS\n" + "\n".join(f" {k} = {v}" if not str(v).startswith("<-") else f" {k} {v}"
                                                          for k, v in consts.items()) +
            "\nINVARIANTS " + " ".join(invariants) + (f"\nPROPERTIES {props}" if props else "") +
            "\nCHECK_DEADLOCK FALSE\n")


def sample(ck, items, n, salt=0):
    """A seeded sample (all of them if n is None)."""
    if n is None or len(items) <= n:
        return items
    return random.Random(ck.seed * 1000 + salt).sample(items, n)


def spot_model(ck, inv, quick=1200, queries=True):
    """Exhaustive exploration of the detector; the emitted sequences of calls as scripts."""
    q = QUERY_OPS if queries else "{}"
    out = ck.model("SpotMC", cfg(dict(Depth=3, Caps="{1,2,3}", StepOps=STEP_OPS, FitOps=FIT_OPS, QueryOps=q, Emit="TRUE"),
                                 [inv, "EmitScripts"]), "all sequences of 3 calls, full alphabet")
    items = sample(ck, gen.emitted(out), None if ck.thorough else quick)
    if ck.thorough:
        out = ck.model("SpotMC", cfg(dict(Depth=5, Caps="{1,2}", StepOps='{"T","Z+1","E1","E2","NaN"}',
                                          FitOps='{"fit5","fit9","fitshort"}', QueryOps="{}", Emit="TRUE"),
                                     [inv, "EmitScripts"]), "all sequences of 5 calls, reduced alphabet", timeout=3000)
        items += sample(ck, gen.emitted(out), 20000, 1)
    return gen.from_spec(items)


def spot_traces(ck, inv, scripts, what, group=50, asan=False, shards=None):
    files = ck.execute(scripts, what.replace(" ", "-"), group=group, asan=asan, shards=shards)
    return ck.validate("SpotTrace", [inv], files, what, scripts)


def call_traces(ck, inv, scripts, what, group=50, env=None, asan=False):
    files = ck.execute(scripts, what.replace(" ", "-"), group=group, asan=asan)
    return ck.validate("CallTrace", inv if isinstance(inv, list) else [inv], files, what, scripts)


def twin_traces(ck, scripts, what, group=50, asan=False):
    files = ck.execute(scripts, what.replace(" ", "-"), group=group, asan=asan)
    return ck.validate("TwinTrace", ["Twin"], files, what, scripts)


# ------------------------------------------------------------------ C01 ----
def c01(ck):
    spot_traces(ck, "C01", spot_model(ck, "I01"), "sequences of the specification")
    n = 4000 if ck.thorough else 400
    spot_traces(ck, "C01", gen.streams(ck.seed, n, steps=50, ext=True, far=0.2), "random streams")
    r = random.Random(ck.seed + 1)
    spot_traces(ck, "C01", [edge_script(r) for _ in range(n // 4)], "unusual thresholds")
    spot_traces(ck, "C01", [burst_script(r) for _ in range(n // 10)] + [typical_script(r) for _ in range(n // 25)],
                "bursts and long streams", group=4)
    spot_traces(ck, "C01", wild_scripts(ck), "any data")


def edge_script(r):
    """Thresholds that are zero, negative, huge, equal; unfitted; refused fits; imposed counters."""
    p = gen.params(r)
    s = [init(0, **p)]
    s += [f"step 0 v {hx(x)}" for x in r.sample([0.0, -0.0, 1.0, -1.0, INF, -INF, NAN, 1e308, -1e308, 5e-324], 4)]
    base = r.choice([[0.0] * 5, [-1.0] * 7, [1e300 * x for x in range(8)], [1e-300 * x for x in range(8)],
                     [-x for x in range(9)], [0.0, 0.0, 0.0, 1.0, -1.0, 2.0, -2.0], [float(x * x) for x in range(12)]])
    base = list(map(float, base))
    r.shuffle(base)
    s.append(fit(0, base))
    for _ in range(12):
        s.append(gen.one_step(r, 0, True))
    if r.random() < 0.5:
        s.append(f"inject 0 {r.choice([2**31, 2**32, 2**40]) + r.randint(-3, 3)} {r.choice([10, 2**16, 2**31, 2**32])}")
        for _ in range(8):
            s.append(gen.one_step(r, 0, False))
    s.append(fit(0, [1.0, 2.0][:r.randint(0, 2)]))
    for _ in range(6):
        s.append(gen.one_step(r, 0, True))
    return s


def burst_script(r, lo=5, hi=130):
    """Long runs of data of one kind: anomalies, NaN, infinities, excesses, normal data."""
    p = gen.params(r)
    p["disc"] = r.choice([1, 1, 1, 0])
    s = [init(0, **p), fit(0, gen.sgn(p["low"], gen.draw(r, r.choice(gen.REGULAR), r.choice([20, 60, 150]), r.choice([1.0, 30.0]))))]
    far = INF if p["low"] == 0 else -INF
    for _ in range(3):
        kind = r.choice(["anomaly", "anomaly", "far", "nan", "excess", "tie", "normal", "inf"])
        x = r.uniform(1.0001, 4)
        k = r.randint(lo, hi)
        for _ in range(k if kind not in ("excess", "tie") else k // 3 + 1):
            s.append({"anomaly": lambda: f"step 0 M {hx(r.uniform(1.0001, 4))}", "far": lambda: f"step 0 M {hx(x)}",
                      "nan": lambda: f"step 0 v {r.choice(gen.NANS)}", "excess": lambda: f"step 0 M {hx(r.random())}",
                      "tie": lambda: "step 0 T 0", "normal": lambda: f"step 0 A {hx(-r.expovariate(1))}",
                      "inf": lambda: f"step 0 v {hx(far if p['disc'] else -far)}"}[kind]())
        s += [f"step 0 M {hx(0.5)}", "step 0 Z 1", f"step 0 A {hx(-1.0)}", gen.query(r, 0)]
    return s


def typical_script(r, steps=150):
    """The documented use: default parameters, a large batch, a long stream."""
    low = r.randint(0, 1)
    level = r.choice([0.98, 0.95, 0.9, 0.99])
    cap = r.choice([200, 500, 100])
    s = [init(0, q=r.choice([1e-3, 1e-4, 1e-5, 1e-6]), low=low, disc=r.choice([1, 1, 0]), level=level, cap=cap)]
    kind, sc = r.choice(["gauss", "exp", "pareto", "unif", "mix"]), r.choice([1.0, 20.0, 0.05])
    s += ["fullwin 0", fit(0, gen.sgn(low, gen.draw(r, kind, r.choice([500, 1000, 2000]), sc)))]
    for x in gen.sgn(low, gen.draw(r, kind, steps, sc)):
        s.append(f"step 0 v {hx(x)}" if r.random() < 0.7 else gen.one_step(r, 0, False))
    s.append(f"bulk 0 {r.choice([50, cap, cap + 30])} M {hx(0.5)}")
    s += [f"step 0 M {hx(r.random())}" for _ in range(steps // 2)]
    s += ["fullwin 1", f"step 0 M {hx(0.25)}", f"step 0 M {hx(0.75)}", "quant 0 Q", "prob 0 Z 0"]
    return s


# ------------------------------------------------------------------ C02 ----
def c02(ck):
    spot_traces(ck, "C02", spot_model(ck, "I02"), "sequences of the specification")
    n = 2000 if ck.thorough else 250
    r = random.Random(ck.seed + 2)
    spot_traces(ck, "C02", gen.streams(ck.seed, n, steps=50, ext=True, far=0.2) + [edge_script(r) for _ in range(n // 2)],
                "random streams")
    spot_traces(ck, "C02", [burst_script(r) for _ in range(n // 6)] + [typical_script(r) for _ in range(n // 25)],
                "bursts and long streams", group=4)
    dropped_traces(ck, gen.streams(ck.seed + 22, n, steps=50, queries=0) + [edge_script(r) for _ in range(n // 4)] +
                   [[x for x in burst_script(r) if x[:4] in ("init", "fit ", "step")] for _ in range(n // 8)],
                   "streams without the rejected data")
    spot_traces(ck, "C02", wild_scripts(ck), "any data")


def dropped_traces(ck, scripts, what):
    """Run the streams, then run them again next to a second detector that is not given what was rejected."""
    out = []
    for events in ck.events_of(ck.execute(scripts, "whole")):
        if any(e["k"] not in ("new", "init", "fit", "step") for e in events):
            continue
        a, b = [], []
        for e in events[1:]:
            if e["k"] == "init":
                args = f"{hx(dbl(e['q']))} {e['low']} {e['disc']} {hx(dbl(e['level']))} {int(dbl(e['cap']))}"
            elif e["k"] == "fit":
                args = f"{len(e['data'])} " + " ".join(hx(dbl(x)) for x in e["data"])
            else:
                args = "v " + hx(dbl(e["x"]))
            a.append(f"{e['k']} 0 {args}")
            if e["ret"] != 2 and e["ret"] not in (-1005, -1003):
                b.append(f"{e['k']} 1 {args}")
        out.append(a + b + ["twin 0 1 dropped"])
    return twin_traces(ck, out, what)


# ------------------------------------------------------------------ C03 ----
def c03(ck):
    spot_traces(ck, "C03", spot_model(ck, "I03"), "sequences of the specification")
    n = 3000 if ck.thorough else 300
    r = random.Random(ck.seed + 3)
    spot_traces(ck, "C03", gen.streams(ck.seed, n, steps=50, ext=True, far=0.2), "random streams")
    spot_traces(ck, "C03", [edge_script(r) for _ in range(n // 4)] + [counter_script(r, ck.thorough) for _ in range(60)] +
                [burst_script(r) for _ in range(n // 10)] + [typical_script(r) for _ in range(n // 30)] + [huge_batch(r)],
                "long streams", group=4)
    spot_traces(ck, "C03", millions(r, ((r.randint(0, 1), 0.98, 1, 1200000), (r.randint(0, 1), 0.99, 1, 2 ** 24 + 3), (r.randint(0, 1), 0.5, 2, 2200000))),
                "batches of millions of data", group=1)
    spot_traces(ck, "C03", wild_scripts(ck), "any data")


def millions(r, cases):
    return [["fullwin 0", init(0, q=1e-4, low=low, disc=1, level=level, cap=50), f"hugefit 0 {dist} {r.randint(1, 10 ** 9)} {size + 2 * r.randint(0, 4)}",
             f"step 0 A {hx(-0.5)}", f"step 0 M {hx(0.5)}"] for low, level, dist, size in cases]


def huge_batch(r, n=70000):
    """A batch of more than 2^16 data."""
    low = r.randint(0, 1)
    return [init(0, q=1e-4, low=low, disc=1, level=0.5 if r.random() < 0.5 else 0.98, cap=50),
            fit(0, gen.sgn(low, gen.draw(r, "exp", n))), f"step 0 M {hx(0.5)}", f"step 0 A {hx(-0.5)}", "quant 0 Q"]


def counter_script(r, thorough):
    """Long streams, and counters fast-forwarded around the powers of two."""
    p = gen.params(r, caps=[1, 2, 3, 5, 300])
    s = [init(0, **p), fit(0, gen.sgn(p["low"], gen.draw(r, "exp", 60)))]
    s.append(f"bulk 0 {r.choice([70, 300, 1000])} A {hx(r.choice([-1.0, 0.5, 0.0]))}")
    if r.random() < 0.3:
        s.append(f"bulk 0 {70000 if not thorough else 300000} A {hx(-1.0)}")
    for e in r.sample([8, 15, 16, 24, 31, 32, 33, 40, 48, 52], 4):
        n = 2 ** e + r.randint(-3, 1)
        s.append(f"inject 0 {n} {r.choice([n, n // 2, 2 ** r.choice([7, 8, 15, 16, 31, 32]) - 2 if e > 33 else n // 3])}")
        for _ in range(8):
            s.append(r.choice([f"step 0 A {hx(0.25)}", f"step 0 A {hx(-0.5)}", "step 0 T 0", f"step 0 M {hx(0.5)}", "step 0 Z 1"]))
    return s


# ------------------------------------------------------------------ C04 ----
def ring_model(ck, inv):
    consts = dict(Depth=8 if ck.thorough else 6, Caps="{1,2,3,4}" if ck.thorough else "{1,2,3}",
                  Vals='{"1","2","3","1e200","inf"}', Emit="TRUE")
    out = ck.model("RingMC", cfg(consts, inv + ["EmitScripts"]), "all sequences of pushes")
    return sample(ck, gen.emitted(out), 30000 if ck.thorough else 2500)


def ring_random(ck, pre, n):
    r = random.Random(ck.seed + 4)
    res = []
    for _ in range(n):
        cap = r.choice([1, 2, 3, 4, 5, 8, 17, 64])
        s = [f"{pre}init {cap}"]
        kind = r.choice(gen.KINDS)
        sc = r.choice([1.0, 1e-3, 1e3, 1e6])
        for x in gen.draw(r, kind, r.choice([cap + 1, 3 * cap + 2, 40]), sc):
            k = r.random()
            if k < 0.03:
                x = INF
            elif k < 0.06:
                x = x * 1e8
            elif k < 0.08:
                x = 1e-12
            elif k < 0.1:
                x = 0.0
            s.append(f"{pre}push {hx(x)}")
        s.append(f"{pre}free")
        res.append(s)
    return res


def big_caps(ck, stats):
    """Containers around the powers of two, filled and wrapped."""
    res = []
    caps = [127, 128, 129, 255, 256, 257, 1023, 1024, 1025]
    if not stats:
        caps += [32768, 65535, 65536, 65537]
    for cap in caps:
        s = [f"pinit {cap}", "fullwin 0"]
        s.append(f"pbulk {cap - 1} {hx(1.0)} {hx(0.5)}")
        s += ["fullwin 1", f"ppush {hx(0.25)}", f"ppush {hx(7.0)}", f"ppush {hx(1e6)}", "fullwin 0"]
        s.append(f"pbulk {cap - 2} {hx(3.0)} {hx(0.25)}")
        s += ["fullwin 1", f"ppush {hx(2.0)}", f"ppush {hx(5.0)}"]
        res.append(s + ["pfree"])
    return res


def c04(ck):
    items = ring_model(ck, ["Content", "Evicted"])
    scripts = [[f"uinit {c}"] + [f"upush {hx(float(v))}" for v in ops] + ["ufree"] for c, ops in items]
    call_traces(ck, "C04", scripts, "pushes of the specification", group=200)
    call_traces(ck, "C04", ring_random(ck, "u", 4000 if ck.thorough else 300), "random pushes")
    call_traces(ck, "C04", big_caps(ck, False), "large containers", group=1)
    spot_traces(ck, "C04", spot_model(ck, "I04", 1000, False), "sequences of the specification")
    n = 3000 if ck.thorough else 250
    spot_traces(ck, "C04", gen.streams(ck.seed, n, steps=60, ext=True, far=0.2), "random streams")
    spot_traces(ck, "C04", wrap_scripts(ck), "detectors with many wraps", group=2)
    spot_traces(ck, "C04", wild_scripts(ck), "any data")


def wrap_scripts(ck):
    """Detectors whose container wraps many times, at several capacities."""
    r = random.Random(ck.seed + 44)
    res = []
    for cap in [1, 2, 3, 10, 100, 200, 255, 256, 257]:
        for low in (0, 1):
            s = [init(0, q=1e-4, low=low, disc=r.randint(0, 1), level=0.5, cap=cap)]
            s.append(fit(0, gen.sgn(low, gen.draw(r, "exp", r.choice([50, 3 * cap + 7])))))
            for _ in range(6):
                s.append("fullwin 0")
                s.append(f"bulk 0 {r.choice([cap - 1, cap, cap + 1, 2 * cap + 3]) or 1} A {hx(r.random() * 0.5)}")
                s.append("fullwin 1")
                s += [f"step 0 A {hx(r.random())}" for _ in range(4)]
            if cap <= 10:
                s += [f"bulk 0 {r.choice([600, 3000])} A {hx(0.125)}", f"step 0 A {hx(0.5)}"]
            res.append(s)
    if ck.thorough:
        for cap in [65535, 65536, 65537]:
            res.append([init(0, q=1e-4, low=0, disc=0, level=0.5, cap=cap), fit(0, gen.draw(r, "exp", 100)), "fullwin 0",
                        "fullwin 1", f"step 0 A {hx(0.5)}"])
    return res


# ------------------------------------------------------------------ C05 ----
def ring_overflow(ck, n):
    """The sum, or the sum of squares, of the window overflows and comes back."""
    r = random.Random(ck.seed + 55)
    res = []
    for _ in range(n):
        top = r.choice([1.3e154, 1.3e154, 1.7e308, 1e200])
        f = lambda: r.choice([top * r.uniform(0.6, 1), top * r.uniform(0.6, 1), r.random(), 1.0, top * 1e-3, top * 1e-9])
        res.append([f"pinit {r.choice([1, 2, 3, 3, 4, 5, 8])}"] + [f"ppush {hx(f())}" for _ in range(25)] + ["pfree"])
    return res


def c05(ck):
    items = ring_model(ck, ["Stats"])
    scripts = [[f"pinit {c}"] + [f"ppush {hx(float(v))}" for v in ops] + ["pfree"] for c, ops in items]
    call_traces(ck, "C05", scripts, "pushes of the specification", group=200)
    call_traces(ck, "C05", ring_random(ck, "p", 4000 if ck.thorough else 400), "random pushes")
    call_traces(ck, "C05", ring_overflow(ck, 2000 if ck.thorough else 200), "sums that overflow for a while")
    call_traces(ck, "C05", big_caps(ck, True), "large containers", group=1)
    spot_traces(ck, "C05", spot_model(ck, "I05", 800, False), "sequences of the specification")
    spot_traces(ck, "C05", gen.streams(ck.seed, 3000 if ck.thorough else 250, steps=60, ext=True, far=0.2), "random streams")
    spot_traces(ck, "C05", wild_scripts(ck), "any data")


# ------------------------------------------------------------------ C06 ----
def c06(ck):
    spot_traces(ck, "C06", spot_model(ck, "I06"), "sequences of the specification")
    n = 3000 if ck.thorough else 350
    r = random.Random(ck.seed + 6)
    spot_traces(ck, "C06", gen.streams(ck.seed, n, steps=50, far=0.2), "random streams")
    spot_traces(ck, "C06", [edge_script(r) for _ in range(n // 3)] + [counter_script(r, False) for _ in range(30)] +
                [burst_script(r) for _ in range(n // 15)] + [typical_script(r) for _ in range(n // 15)],
                "unusual thresholds and counters, long streams", group=10)
    spot_traces(ck, "C06", wild_scripts(ck), "any data")


# ------------------------------------------------------------------ C07 ----
def gammas(r, n):
    g = [0.0, -1.0, 1.0, 0.5, -0.5, 0.1, -0.1, 1e-3, -1e-3, 2.0, -3.0]
    return g + [r.choice([-1, 1]) * 10 ** r.uniform(-9, 0.6) for _ in range(n)]


def closed_forms(ck, n):
    """Grids of the closed forms (increasing arguments)."""
    r = random.Random(ck.seed + 7)
    res = []
    for g in gammas(r, n):
        s = []
        for _ in range(3):
            sg, p = 10 ** r.uniform(-6, 6), r.choice([1.0, 0.5, 0.02, 1e-4, r.random()])
            rs = sorted({10 ** r.uniform(-12, 0) for _ in range(6)} | {1.0, 0.5, 0.999999, 1e-3} | {r.random() for _ in range(4)})
            s += [f"tq {hx(g)} {hx(sg)} {hx(p)} {hx(p * x)}" for x in rs]
            ds = {0.0} | {10 ** r.uniform(-8, 3) for _ in range(8)} | {r.uniform(0, 6) for _ in range(5)}
            if g < 0:
                ds |= {-1 / g * x for x in (0.25, 0.5, 0.9, 0.99, 0.999999, 1.0, 1.000001, 1.5, 2.0, 3.0, 100.0, 1e6)}
            s += [f"tp {hx(g)} {hx(sg)} {hx(p)} {hx(sg * x)}" for x in sorted(ds)]
        res.append(s)
    return res


def imposed_models(ck, n):
    """Queries on detectors whose tail model and counters are imposed."""
    r = random.Random(ck.seed + 77)
    res = []
    for _ in range(n):
        low = r.randint(0, 1)
        s = [init(0, q=1e-4, low=low, disc=1, level=0.5, cap=5),
             fit(0, gen.sgn(low, gen.draw(r, "gauss", 30, r.choice([1, 100.0]), r.choice([0.0, 3.0, -50.0]))))]
        for _ in range(4):
            N = r.choice([20, 1000, 10 ** 6, 2 ** 33])
            s.append(f"inject 0 {N} {max(1, int(N * r.choice([0.5, 0.02, 1e-3, 1.0])))}")
            s.append(f"model 0 {hx(r.choice(gammas(r, 12)))} {hx(10 ** r.uniform(-3, 3))}")
            for x in sorted(10 ** r.uniform(-6, 0) for _ in range(4)) + [1.0]:
                s.append(f"quant 0 R {hx(x)}")
            s += ["quant 0 Q", "prob 0 T 0", "prob 0 Z 0"]
            s += [f"prob 0 A {hx(10 ** r.uniform(-4, 4))}" for _ in range(6)]
        res.append(s)
    return res


def c07(ck):
    spot_traces(ck, "C07", spot_model(ck, "I07"), "sequences of the specification")
    call_traces(ck, "C07", closed_forms(ck, 3000 if ck.thorough else 250), "closed forms", group=20)
    spot_traces(ck, "C07", imposed_models(ck, 3000 if ck.thorough else 250), "imposed models", group=20)
    spot_traces(ck, "C07", gen.streams(ck.seed, 2000 if ck.thorough else 200, steps=40, queries=0.6, far=0.2), "random streams")
    spot_traces(ck, "C07", wild_scripts(ck), "any data")


# ------------------------------------------------------------------ C08 ----
def windows(ck, n):
    """Contents of the tail: all shapes, regular scales."""
    r = random.Random(ck.seed + 8)
    res = []
    for i in range(n):
        m = r.choice([1, 2, 3, 5, 10, 30, 60])
        kind = r.choice(["exp", "pareto0", "unif", "beta", "beta2", "weib", "const", "two", "outlier", "tiny", "line", "cluster"])
        f = {
            "exp": lambda: r.expovariate(1), "pareto0": lambda: r.paretovariate(1 / r.choice([0.2, 0.5, 1.2])) - 1,
            "unif": lambda: r.random(), "beta": lambda: r.betavariate(1, 2), "beta2": lambda: r.betavariate(2, 1),
            "weib": lambda: r.weibullvariate(1, 0.6), "const": lambda: 1.5, "two": lambda: r.choice([1.0, 2.0]),
            "outlier": lambda: r.expovariate(1) * (1 if r.random() < 0.9 else 40), "tiny": lambda: r.expovariate(1) * 1e-6,
            "line": lambda: 0.0, "cluster": lambda: 1 + 0.01 * r.random(),
        }[kind]
        sc = r.choice([1.0, 10.0, 100.0, 300.0, 1000.0, 3000.0, 0.01])
        v = [sc * abs(f()) for _ in range(m)]
        if kind == "line":
            v = [sc * (k + 1) / m for k in range(m)]
        if r.random() < 0.1:
            v[0] = 0.0
        cap = r.choice([m, m + 3, max(1, m // 2)])
        res.append([f"est {cap} {m} " + " ".join(map(hx, v))])
        g = r.choice([0.0, 0.3, -0.3, 1.0, 2.0, -1.0, 1e-4])
        sg = sc * r.choice([0.5, 1.0, 3.0, max(v) / sc * 1.1 + 0.1])
        res.append([f"loglik {hx(g)} {hx(sg)} {m} " + " ".join(map(hx, v))])
        if r.random() < 0.2:
            res.append([f"loglik {hx(g)} {hx(r.choice([-1.0, 0.0, NAN]))} {m} " + " ".join(map(hx, v))])
    return res


def large_windows(ck, n):
    r = random.Random(ck.seed + 80)
    res = []
    for i in range(n):
        m = [257, 520, 1030, 2050][i % 4]
        f = [lambda: r.expovariate(1), lambda: r.paretovariate(2.5) - 1, lambda: r.betavariate(1, 3),
             lambda: r.weibullvariate(1, 1.6)][(i + i // 4) % 4]
        v = [100.0 * f() for _ in range(m)]
        # the last of them matter: the extremes come at the end
        v.sort(reverse=i % 3 == 0)
        res.append([f"est {m + r.choice([0, 5])} {m} " + " ".join(map(hx, v))])
        # tails of a large scale, where the roots are out of reach
        m = [60, 300, 1600, 520][i % 4]
        sc = 10 ** r.uniform(5.2, 8)
        v = [sc * x for x in [[r.betavariate(1, 3) for _ in range(m)], [r.weibullvariate(1, 1.6) for _ in range(m)],
                                                    [r.random() for _ in range(m)]][i % 3]]
        res.append([f"est {m} {m} " + " ".join(map(hx, v))])
    for _ in range(max(1, n // 8)):  # a likelihood of more than a million
        res.append([f"est 12000 12000 " + " ".join(hx(1e60 * r.weibullvariate(1, 1.6)) for _ in range(12000))])
    return res


def c08(ck):
    spot_traces(ck, "C08", spot_model(ck, "I08", 800, False), "sequences of the specification")
    call_traces(ck, "C08", windows(ck, 10000 if ck.thorough else 700), "estimators", group=100)
    call_traces(ck, "C08", [[f"est {m + 1} {m} " + " ".join([hx(k / 4)] * m)] for m in (1, 2, 3, 5, 10, 60, 300) for k in (1, 2, 3, 4, 7, 12, 40, 64)],
                "estimators, one value")
    call_traces(ck, "C08", large_windows(ck, 60 if ck.thorough else 8), "estimators, large tails", group=1)
    spot_traces(ck, "C08", gen.streams(ck.seed, 1500 if ck.thorough else 120, steps=40, queries=0, far=0.3), "random streams", group=10)
    r = random.Random(ck.seed + 88)
    spot_traces(ck, "C08", [typical_script(r, 20) + [f"step 0 M {hx(r.random())}" for _ in range(3)] for _ in range(400 if ck.thorough else 24)],
                "long streams", group=3)
    spot_traces(ck, "C08", wild_scripts(ck), "any data")


# ------------------------------------------------------------------ C09 ----
def p2_batches(ck, n):
    r = random.Random(ck.seed + 9)
    res = []
    for i in range(n):
        m = r.choice([5, 6, 7, 10, 25, 100, 300])
        p = r.choice([k / 64 for k in (1, 2, 8, 16, 32, 48, 56, 60, 62, 63)] + [0.98, 0.95, 0.9, r.random(), 1 - 0.1 * r.random()])
        kind = r.choice(gen.KINDS)
        data = gen.draw(r, kind, m, r.choice([1.0, 100.0, 1e-3]), r.choice([0.0, 10.0, -5.0]))
        if r.random() < 0.15:
            data.sort(reverse=r.random() < 0.5)
        if r.random() < 0.1:
            data = data[: m // 2] + [x + 50 for x in data[m // 2:]]
        s = [f"p2 {hx(p)} {m} " + " ".join(map(hx, data))]
        k = 2.0 ** r.randint(-20, 20)
        s.append(f"p2 {hx(p)} {m} " + " ".join(hx(k * x) for x in data))
        res.append(s)
    return res


def p2_integers(ck, n):
    """Short batches of small integers: exact ties of the adjustments."""
    r = random.Random(ck.seed + 96)
    res = []
    for i in range(n):
        m, top = r.randint(7, 24), r.choice([6, 8, 12, 20, 40])
        p = r.choice([0.5, 0.75, 0.25, 0.8, 0.875, 0.9, 0.1, 0.984375])
        res.append([f"p2 {hx(p)} {m} " + " ".join(hx(12.0 * r.randint(0, top)) for _ in range(m))])
    return res


def p2_large(ck, n, m):
    """Large batches in random order: the estimate is close to the quantile of the batch."""
    r = random.Random(ck.seed + 99)
    res = []
    for i in range(n):
        data = gen.draw(r, r.choice(["exp", "gauss", "unif", "pareto", "mix"]), m, 1.0, r.choice([0.0, 10.0]))
        p = r.choice([0.5, 0.75, 0.9, 0.95, 0.98, 0.99, 0.02, 0.05, 0.25])
        res.append([f"p2 {hx(p)} {m} " + " ".join(map(hx, data))])
    return res


def threshold_scripts(ck, n):
    r = random.Random(ck.seed + 98)
    res = []
    for i in range(n):
        p = gen.params(r, caps=[1, 3, 50], levels=[0.0, 0.25, 0.98, 0.99, 0.9, r.random(), 1 - 0.1 * r.random()] + gen.LEVELS)
        s = [init(0, **p)]
        for _ in range(4):
            m = r.choice([0, 1, 2, 3, 4, 5, 5, 6, 9, 40, 150])
            s.append(fit(0, gen.draw(r, r.choice(gen.KINDS), m, r.choice([1.0, 50.0]), r.choice([0.0, -7.0]))))
            s += [gen.one_step(r, 0, False) for _ in range(2)]
        res.append(s)
    return res


MONOTONE = [float(i) for i in range(1000)]


def c09(ck):
    vals, depth = ("{1,2,3,4,5}", 7) if ck.thorough else ("{1,2,3,4,5}", 6)
    out = ck.model("P2MC", cfg(dict(Depth=depth, Vals=vals, Levels='{"0.5","0.984375","0.0625"}', Emit="TRUE"),
                               ["Short", "InRange", "Median", "Positions", "Affine", "EmitScripts"]), "all small batches")
    items = sample(ck, gen.emitted(out), None if ck.thorough else 8000)
    scripts = [[f"p2 {hx(float(p))} {len(d)} " + " ".join(hx(float(x)) for x in d)] for p, d in items]
    # every order of five data, and every short batch
    import itertools
    scripts += [[f"p2 {hx(0.75)} 5 " + " ".join(hx(float(x)) for x in d)] for d in itertools.product((1, 2, 3, 4, 5), repeat=5)]
    scripts += [[f"p2 {hx(0.75)} {k} " + " ".join(hx(float(x)) for x in range(k))] for k in range(5)]
    # the variant of the algorithm: the one that explains all these batches
    files = ck.execute(scripts, "batches", group=2000)
    rejected = []
    for v in ("lib", "ties", "canon"):
        before = len(ck.violations)
        if ck.validate("CallTrace", ["C09" + v], files, f"batches of the specification, variant {v}", scripts, soft=True):
            break
        rejected = rejected or ck.violations[before:]
        del ck.violations[before:]
    else:
        v = "lib"
        ck.violations += rejected
    inv = "C09" + v
    call_traces(ck, inv, p2_batches(ck, 3000 if ck.thorough else 250), "random batches", asan=True)
    call_traces(ck, inv, p2_integers(ck, 12000 if ck.thorough else 2000), "ties of small integers", group=500)
    call_traces(ck, "C09rank", p2_large(ck, 400 if ck.thorough else 40, 1000), "large batches", group=5)
    spot_traces(ck, inv, threshold_scripts(ck, 3000 if ck.thorough else 250), "thresholds of fits", asan=True)
    r = random.Random(ck.seed + 97)
    spot_traces(ck, inv, [huge_batch(r, m) for m in (70000, 33000, 5000)], "large batches of fits", group=1)
    spot_traces(ck, inv, millions(r, ((0, 0.98, 1, 6000000), (1, 0.98, 2, 6000000), (0, 0.995, 3, 9000000), (1, 0.9, 5, 2000000))),
                "batches of millions of data", group=1)
    # known finding K2: a monotone batch
    known_run(ck, "K2", "CallTrace", "C09rank", "C09known", [[f"p2 {hx(0.95)} 1000 " + " ".join(map(hx, MONOTONE))]], "monotone batch")


def known_run(ck, key, module, inv, listed, scripts, what):
    """A listed finding: reported as known while it fails as listed, silent once repaired."""
    files = ck.execute(scripts, "known-" + key)
    before = len(ck.violations)
    if not ck.validate(module, [inv], files, what, scripts, soft=True):
        rejected = ck.violations[before:]
        del ck.violations[before:]
        if ck.validate(module, [listed], files, what + ", as listed", scripts, soft=True) and ck.known_finding(key):
            return
        ck.violations[before:] = rejected


# ------------------------------------------------------------------ C10 ----
def c10(ck):
    if ck.thorough:
        caps = '{"0","1","2","500","40000000","2305843009213693951","2305843009213693952","2305843009213693953","4611686018427387905","18446744073709551615"}'
        flags, modes = "<- FlagSet", '{"A","B","0","N","F","X"}'
    else:
        caps = '{"0","1","500","40000000","2305843009213693952","2305843009213693953","18446744073709551615"}'
        flags, modes = "<- FlagSet", '{"A","B","0","N","X"}'
    out = ck.model("InitMC", cfg(dict(
        LevelNames='{"NaN","-inf","-1","0-","-0.0","0","5e-324","0.5","0.98","1-","1","1+","2","inf"}',
        QNames='{"NaN","-inf","-1","-0.0","0","5e-324","1e-9","half","B-","B","B+","1","inf"}',
        CapNames=caps, Flags=flags, Modes=modes, Emit="TRUE"),
        ["Answers", "Exactly", "Priority", "Flagged", "EmitScripts"]), "grid of parameters")
    items = gen.emitted(out)
    r = random.Random(ck.seed + 10)
    if not ck.thorough:
        # each accepted combination and a sample of the refused ones
        good = [x for x in items if x[6] in (0, -1000)]
        items = sample(ck, good, 6000) + sample(ck, [x for x in items if x[6] not in (0, -1000)], 6000, 1)
    scripts, cur = [], []
    for q, level, cap, low, disc, mode, ret in items:
        d = r.randint(0, 7)
        cur.append(f"junk {d} {r.choice([0, 255, 127, -1, -2, 0x3f])}")
        if mode == "X":
            cur += ["alloc A", "failin 0"]
        else:
            cur.append(f"alloc {mode}")
        cur.append(f"init {d} {hx(dbl(q))} {low} {disc} {hx(dbl(level))} {cap}")
        if ret in (0, -1000):
            cur += ["alloc A", f"free {d}"]
        cur.append("failin -1")
        if len(cur) > 60:
            scripts.append(cur)
            cur = []
    scripts.append(cur)
    spot_traces(ck, "C10", scripts, "grid of the specification")
    # any level, q around 1 - level, any capacity and flags
    edges = []
    for _ in range(3000 if ck.thorough else 400):
        s = []
        for _ in range(8):
            level = r.choice([r.random(), r.random() ** 8, 1 - 10 ** r.uniform(-16, 0), 10 ** r.uniform(-320, 0), 1 - 2.0 ** -r.randint(1, 53), 0.0])
            level = min(max(level, 0.0), gen.ulps(1.0, -1))
            top = 1.0 - level
            q = r.choice([gen.ulps(top, k) for k in (-3, -2, -1, 0, 0, 1, 2)] + [top * r.random(), top * (1 + r.random()), 10 ** r.uniform(-320, 0),
                                                                             5e-324, r.choice([level, -level, -top, top / 2, 0.0, -0.0])])
            flag = lambda: r.choice([0, 1, 2, -1, 255, 256, 65536, -2147483648, 2147483647, r.randint(-2 ** 31, 2 ** 31 - 1)])
            cap = r.choice([0, 1, 2, 3, r.randint(1, 5000), r.randint(1, 10 ** 6), 2 ** r.randint(0, 24), 2 ** r.randint(0, 24) + 1])
            s += [f"junk 0 {r.choice([0, 255, -1, -2])}", f"init 0 {hx(q)} {flag()} {flag()} {hx(level)} {cap}"]
            if level < 1 and 0 < q < top:
                s += ["free 0"]
        edges.append(s)
    spot_traces(ck, "C10", edges, "random parameters")
    # any history before the initialisation
    hist = []
    for _ in range(2000 if ck.thorough else 250):
        s = gen.stream(r, steps=6)
        s += ["free 0", init(0, **gen.params(r)), fit(0, gen.draw(r, "exp", 20)), "step 0 T 1", "free 0"]
        s += ["failin 0", init(0, **gen.params(r)), "free 0", "failin -1", init(0, **gen.params(r)), "step 0 v " + hx(1.0)]
        hist.append(s)
    spot_traces(ck, "C10", hist, "initialisation after a history")


# ------------------------------------------------------------------ C11 ----
def heap_script(ops, r):
    s = []
    cur = "A"
    for op, d in ops:
        low = r.randint(0, 1)
        p = dict(q=0.01, low=low, disc=r.randint(0, 1), level=0.5, cap=r.choice([1, 2, 5]))
        if op == "init":
            s.append(init(d, **p))
        elif op == "initbad":
            s.append(init(d, **dict(p, q=r.choice([0.0, 0.5, NAN, 2.0]))) if r.random() < 0.5 else init(d, **dict(p, level=r.choice([1.0, NAN, -1.0]))))
        elif op == "initfail":
            s += ["failin 0", init(d, **p), "failin -1"]
        elif op == "inithuge":
            s.append(init(d, **dict(p, cap=r.choice([2 ** 61, 2 ** 61 + 1, 2 ** 63, 2 ** 64 - 1, 2 ** 62 + 2, 2 ** 40]))))
        elif op == "init0":
            s.append(init(d, **dict(p, cap=0)))
        elif op == "initnomalloc":
            s += [f"alloc {r.choice('0N')}", init(d, **p), f"alloc {cur}"]
        elif op == "fit":
            s.append(fit(d, gen.draw(r, r.choice(gen.KINDS), r.choice([5, 9, 20]))))
        elif op == "fitbad":
            s.append(fit(d, gen.draw(r, "exp", r.randint(0, 4))))
        elif op == "steps":
            s += [gen.one_step(r, d, True) for _ in range(3)] + [gen.query(r, d)]
        elif op == "free":
            s.append(f"free {d}")
        elif op == "swap":
            cur = "B" if cur == "A" else "A"
            s.append(f"alloc {cur}")
    return s


def c11(ck):
    out = ck.model("HeapMC", cfg(dict(Dets="{1,2}", Depth=5, Emit="TRUE" if ck.thorough else "FALSE"),
                                 ["OneBlockEach", "FreedOnce", "NoDangling", "Conserved", "EmitScripts"]), "life cycles, 5 calls")
    if ck.thorough:
        items = sample(ck, gen.emitted(out), 40000)
    else:
        out = ck.model("HeapMC", cfg(dict(Dets="{1,2}", Depth=4, Emit="TRUE"),
                                     ["OneBlockEach", "FreedOnce", "NoDangling", "Conserved", "EmitScripts"]), "life cycles, 4 calls")
        items = sample(ck, gen.emitted(out), 2500)
    r = random.Random(ck.seed + 11)
    scripts = [heap_script(x[0], r) for x in items]
    spot_traces(ck, "C11", scripts, "life cycles of the specification", asan=True, group=25)
    n = 2000 if ck.thorough else 200
    spot_traces(ck, "C11", gen.streams(ck.seed, n, steps=60, ext=True, far=0.2) + [edge_script(r) for _ in range(n // 2)],
                "random streams under the address sanitizer", asan=True, group=25)
    call_traces(ck, "C04", ring_random(ck, "p", n) + ring_random(ck, "u", n) + big_caps(ck, True),
                "container under the address sanitizer", asan=True, group=25)
    call_traces(ck, "C08mem", windows(ck, n), "estimators under the address sanitizer", asan=True)
    spot_traces(ck, "C11", wild_scripts(ck), "any data", asan=True)


# ------------------------------------------------------------------ C12 ----
PROGS = {
    "Progs2": [["fit5", "E1", "F", "T"], ["E2", "fit9", "NaN", "E1", "Z+1"]],
    "Progs2b": [["fit9", "E2", "E1", "fitshort", "fit5", "M"], ["fitties", "E1", "fit5", "B", "T", "F"]],
    "Progs3": [["fit5", "E1", "Z+1"], ["fit9", "T", "E2"], ["fitconst", "fit9", "M"]],
}


def c12(ck):
    r = random.Random(ck.seed + 12)
    watched, twins = [], []
    for name in ("Progs2", "Progs2b", "Progs3"):
        out = ck.model("InterleaveMC", cfg(dict(Progs=f"<- {name}", Emit="TRUE"), ["Independent", "Afresh", "EmitScripts"]),
                       "interleavings of " + name)
        progs = PROGS[name]
        for (sched,) in sample(ck, gen.emitted(out), None if ck.thorough else 150):
            n = len(progs)
            new = [init(d, low=d % 2, disc=1, cap=d + 1) for d in range(1, n + 1)]
            inter, pc = [], [0] * n
            for d in sched:
                inter.append(gen.call(d, progs[d - 1][pc[d - 1]], d % 2))
                pc[d - 1] += 1
            watched.append(["watch 1"] + new + inter)
            # the same programs, alone, in other detectors
            solo = []
            for d in range(1, n + 1):
                e = d + 10
                solo += [f"junk {e} {r.choice([0, 255, -1])}", init(e, low=d % 2, disc=1, cap=d + 1)]
                solo += [gen.call(e, op, d % 2) for op in progs[d - 1]]
            twins.append((solo + new + inter if r.random() < 0.5 else new + inter + solo) + [f"twin {d} {d + 10} same" for d in range(1, n + 1)])
    spot_traces(ck, "C12", watched, "interleavings of the specification, others watched")
    twin_traces(ck, twins, "interleaved and alone")
    n = 2000 if ck.thorough else 200
    twin_traces(ck, [mixed_script(r) for _ in range(n)], "random interleavings")
    twin_traces(ck, [refit_script(r) for _ in range(n)], "refit and re-initialisation start afresh")
    twin_traces(ck, [moved_script(r) for _ in range(n)], "moved in memory and not")
    threads(ck, n // 2)
    spot_traces(ck, "C12", [["watch 1"] + mixed_script(r, twins=False) for _ in range(n // 4)], "random interleavings, others watched")


def threads(ck, n):
    """Detectors driven by several threads at once, then each of them alone."""
    r = random.Random(ck.seed + 121)
    scripts = []
    for _ in range(n):
        k = r.randint(2, 4)
        progs = []
        for d in range(k):
            p = gen.stream(r, steps=r.choice([10, 30]), d=d)
            if r.random() < 0.5 and d:
                p = [rename(x, d) for x in progs[0]]
            if r.random() < 0.5:
                p += [f"free {d}", p[0], fit(d, gen.draw(r, "exp", 30)), f"step {d} T 0"]
            progs.append(p)
        s = [f"par {d} {x}" for d in range(k) for x in progs[d]] + ["join"]
        for d in range(k):
            s += [f"junk {d + 10} {r.choice([0, 255, -1])}"] + [rename(x, d + 10) for x in progs[d]]
        scripts.append(s + [f"twin {d} {d + 10} same" for d in range(k)])
    tsan = ck.runs("tsan")
    ck.extra["thread_sanitizer"] = tsan
    files = ck.execute(scripts, "threads", build="tsan" if tsan else "o", group=5)
    ck.validate("TwinTrace", ["Twin"], files, "detectors in concurrent threads", scripts)


def rename(line, d):
    if line.count(" ") < 2:
        return f"{line.split()[0]} {d}"
    c, _, rest = line.split(" ", 2)
    return f"{c} {d} {rest}"


def moved_script(r):
    """A stream whose detector changes its address between calls, next to the same stream in place."""
    p = gen.stream(r, steps=r.choice([10, 30]), d=0)
    if r.random() < 0.5:
        p += ["free 0", init(0, **gen.params(r)), fit(0, gen.draw(r, "exp", 30)), "step 0 T 0"]
    s, cur = list(p), 1
    for x in p:
        s.append(rename(x, cur))
        if x.startswith("init") or r.random() < 0.15:
            to = r.choice([d for d in range(1, 9) if d != cur])
            s.append(f"move {cur} {to}")
            cur = to
    return s + [f"twin 0 {cur} same"]


def mixed_script(r, twins=True):
    """Random streams interleaved on 2 to 4 detectors, then each of them alone."""
    k = r.randint(2, 4)
    progs = []
    for d in range(k):
        p = gen.stream(r, steps=r.choice([8, 25]), d=d)
        if r.random() < 0.3 and progs:
            p = [rename(x, d) for x in progs[0]]  # same data in two detectors
        progs.append(p)
    pos, inter = [0] * k, []
    while any(pos[d] < len(progs[d]) for d in range(k)):
        d = r.choice([d for d in range(k) if pos[d] < len(progs[d])])
        m = r.choice([1, 1, 2, 5])
        inter += progs[d][pos[d]:pos[d] + m]
        pos[d] += m
    if not twins:
        return inter
    solo = []
    for d in range(k):
        solo += [f"junk {d + 10} {r.choice([0, 255, -1, -7])}"] + [rename(x, d + 10) for x in progs[d]]
    return inter + solo + [f"twin {d} {d + 10} same" for d in range(k)]


def refit_script(r):
    """A refit (or free and init) after a history = a fresh detector."""
    s = gen.stream(r, steps=r.choice([5, 30]), ext=True, refit=False)
    first = s[0]
    low = int(first.split()[3])
    data = gen.sgn(low, gen.draw(r, r.choice(gen.REGULAR), r.choice([5, 20, 60]), r.choice([1.0, 30.0])))
    then = [fit(0, data)] + [gen.one_step(r, 0, True) for _ in range(12)] + [gen.query(r, 0) for _ in range(3)]
    again = r.random() < 0.4
    if again:
        s.append("free 0")
        if r.random() < 0.5:
            s.append("free 0")
        s.append("mark 0")
        s.append(first)
    else:
        s.append("mark 0")
    s += then
    if not again:
        s += [rename(first, 1), "mark 1"]
    else:
        s += ["junk 1 -3", rename(first, 1)]
    s += [rename(x, 1) for x in then]
    return s + ["twin 0 1 same"]


# ------------------------------------------------------------------ C13 ----
def math_script(ck, n, utils):
    r = random.Random(ck.seed + 13)
    xs = set()
    for e in range(-1074, 1024, 7):
        xs |= {2.0 ** e, 1.5 * 2.0 ** e}
    xs |= {5e-324, 1e-310, 2.2250738585072014e-308, 1.7976931348623157e308, 1.0, 0.5, 2.0, math.e}
    xs |= {b * (1 + sg * 2.0 ** -k) for b in (1.0, 0.5, 0.25, 2.0, 1e-5, 1e5) for sg in (-1, 1) for k in range(2, 52)}
    xs |= {1.7976931348623157e308 * (1 - 2.0 ** -k) for k in range(1, 54)} | {2.0 ** -1022 * (1 + sg * 2.0 ** -k) for sg in (-1, 1) for k in range(1, 53)}
    xs |= {gen.ulps(1.0, k) for k in range(-4, 5)} | {gen.ulps(0.5, k) for k in range(-3, 4)}
    xs |= {10 ** r.uniform(-300, 300) for _ in range(n)} | {r.uniform(0, 3) for _ in range(n)}
    xs |= {k / 64 for k in range(1, 260)} | {gen.ulps(math.sqrt(0.5), k) for k in range(-3, 4)} | {gen.ulps(math.sqrt(2), k) for k in range(-3, 4)}
    lines = [f"math log {hx(x)} {hx(0.0)}" for x in [-INF, -1.0, -5e-324, -0.0, 0.0] + sorted(xs) + [INF]]
    lines += [f"math explog {hx(x)} {hx(0.0)}" for x in sorted(xs) if 1e-307 < x]
    ys = {k / 4 for k in range(-3100, 3000, 3)} | {r.uniform(-750, 720) for _ in range(n)} | {r.uniform(-2, 2) for _ in range(n)}
    ys |= {math.log(2) * (k + 0.5) for k in range(-1060, 1020, 9)} | {math.log(2) * k for k in range(-1060, 1020, 13)}
    # down to the last double on each side of a boundary
    for b in (math.log(2), 709.782712893384, -708.3964185322641, 0.0, 1.0, 512 * math.log(2)):
        ys |= {b + sg * 2.0 ** k for sg in (-1, 1) for k in range(-44, 4)}
    ys |= {0.0, 5e-324, -5e-324, 1e-17, -1e-17, 709.78, 709.79, 710.0, -708.3, -708.4, -745.0, -746.0, 1000.0, -1000.0, 1e6, -1e6,
           1e10, -1e10, 2147483648.0, -2147483648.0, 1.5e9, -1.5e9, 1e300, -1e300}
    lines += [f"math exp {hx(y)} {hx(0.0)}" for y in [-INF] + sorted(ys) + [INF]]
    lines += [f"math logexp {hx(y)} {hx(0.0)}" for y in sorted(ys) if abs(y) < 700]
    for _ in range(2 * n):
        a, b = 10 ** r.uniform(-30, 30), r.choice([-1, 1]) * 10 ** r.uniform(-6, 3)
        if abs(b * math.log(a)) < 3000:
            lines.append(f"math pow {hx(a)} {hx(b)}")
    for a in [0.25, 0.3, 0.49, 0.5, 1.0, 2.0, 10.0, 1e-5]:
        for b in [-2.0, -1.0, -0.5, 0.0, 0.1, 1.0, 2.0, 3.0, 10.0]:
            lines.append(f"math pow {hx(a)} {hx(b)}")
    sp = [NAN, INF, -INF, 0.0, -0.0, 1.0, -1.0, 5e-324, 1e308, -1e308]
    for a in sp:
        for fn in ("exp", "log", "nan"):
            lines.append(f"math {fn} {hx(a)} {hx(0.0)}")
        for b in sp:
            lines.append(f"math min {hx(a)} {hx(b)}")
            if a != a or b != b or a < 0:
                lines.append(f"math pow {hx(a)} {hx(b)}")
    for _ in range(50):
        lines.append(f"math min {hx(r.gauss(0, 1))} {hx(r.gauss(0, 1))}")
    for bits in ("7ff0000000000001", "fff8000000000000", "7fffffffffffffff", "fff0000000000001", "7ff8000000000000"):
        lines += [f"math nan {bits} {hx(0.0)}", f"math log {bits} {hx(0.0)}", f"math exp {bits} {hx(0.0)}",
                  f"math min {bits} {hx(1.0)}", f"math min {hx(1.0)} {bits}"]
    return utils + lines


def c13(ck):
    n = 20000 if ck.thorough else 1500
    scripts = [math_script(ck, n, [])]
    scripts += [math_script(ck, n // 4, u) for u in (["futils 1 1"], ["futils 1 0"], ["futils 0 1"], ["futils 0 0"],
                                                     ["futils 1 1", "futils 0 0"], ["futils 1 0", "futils 0 1"])]
    # one script per process: the utilities are global
    scripts = split(scripts, 1500)
    files = ck.execute(scripts, "math", group=1)
    ck.validate("CallTrace", ["C13", "C13utils"], files, "math kernel, library and user float utilities", scripts)
    # no result changes: same calls with and without the user functions
    same = []
    for u in (["futils 1 1"], ["futils 1 0"], ["futils 0 1"], ["futils 1 1", "futils 0 0"]):
        s = math_script(ck, 300, [])
        a = [x for x in s]
        same.append(a + u + a)
    files = ck.execute(same, "utils", group=1)
    ck.validate("CallTrace", ["C13same"], files, "same results with user float utilities", same)


def split(scripts, size):
    """Cut long stateless scripts, repeating their first (futils) lines."""
    out = []
    for s in scripts:
        head = [x for x in s if x.startswith("futils")]
        body = [x for x in s if not x.startswith("futils")]
        for i in range(0, len(body), size):
            out.append(head + body[i:i + size])
    return out


# ------------------------------------------------------------------ C14 ----
def c14(ck):
    sizes = list(range(0, 131)) + [200, 255, 256, 257, 300, 511, 512, 513, 1000, 4096]
    if ck.thorough:
        sizes = list(range(0, 400)) + [511, 512, 513, 1000, 1024, 4096]
    codes = [1000, 1001, 1002, 1003, 1004, 1005, 999, 1006, 0, 1, -1, -1000, -1001, 2147483647, -2147483648, 1010, 2000, 232, 65536 + 1000]
    scripts = []
    for what, cs in (("version", [0]), ("license", [0]), ("error", codes)):
        for c in cs:
            for pat in (0, 2, 3 + ck.seed, 1):
                scripts.append([f"text {what} {c} {k} 0 {pat}" for k in (sizes if pat == 0 or ck.thorough else sizes[pat % 3::3])] +
                               [f"text {what} {c} {k} 1 {pat}" for k in (0, 1, 8, 64)])
    call_traces(ck, "C14", scripts, "text functions", asan=True, group=3)
    big = [("version", 0), ("license", 0)] + [("error", c) for c in (1000, 1001, 1002, 1003, 1004)]
    call_traces(ck, "C14", [[f"text {w} {c} {k} 0 2"] for w, c in big for k in (32767, 32768, 65535, 65536, 65540)], "long buffers", group=3)
    call_traces(ck, "C14", [[f"bigtext {w} {c}"] for w, c in big[:3]], "buffers of more than 4 GiB", group=1)
    known_run(ck, "K1", "CallTrace", "C14strict", "C14", [["text error 1005 64 0 0"]], "message of the NaN error")


# ------------------------------------------------------------------ C17 ----
def functions(ck, n):
    r = random.Random(ck.seed + 17)
    res = []
    for _ in range(n):
        k = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 11, 12, 13])
        if k == 0:
            m = r.randint(2, 9)
            p = [r.choice([-1, 1]) * r.choice([0.0, 10 ** r.uniform(-6, 6), r.random()]) for _ in range(m)]
            a, b = 0.0, float(m - 1)
            if r.random() < 0.3:
                a, b = b, a
        else:
            root = r.choice([0.0, r.gauss(0, 1), r.uniform(-100, 100), 10 ** r.uniform(-6, 4)])
            w1, w2 = 10 ** r.uniform(-4, 3), 10 ** r.uniform(-4, 3)
            a, b = root - w1, root + w2
            if r.random() < 0.2:
                a, b = b, a
            if r.random() < 0.1:
                a = root
            if r.random() < 0.1:
                b = root
            p = {1: [r.choice([-1, 1]) * r.random(), root, r.random()], 2: [r.choice([-1, 1]) * 10 ** r.uniform(-2, 6), root],
                 3: [r.uniform(-0.5, 0.5), 0.0], 4: [root, float(r.choice([3, 5, 9])), r.choice([-1, 1]) * 1.0],
                 5: [r.uniform(0.1, 3), r.uniform(0, 6), r.choice([-1, 1]) * 1.0],
                 6: [root, 10 ** r.uniform(-2, 6), r.choice([-1, 1]) * 1.0], 7: [root, 10 ** r.uniform(-6, 6), 10 ** r.uniform(-6, 6)],
                 10: [root, 10 ** r.uniform(-4, 4), 10 ** r.uniform(-4, 4), 10 ** r.uniform(-1, 1.8)],
                 11: [root, 10 ** r.uniform(-4, 4), 10 ** r.uniform(-1, 3.5), r.choice([0.1, 0.3, 1.0, 5.0])],
                 12: [root, r.uniform(-600, 600) / (abs(root) + max(w1, w2) + 1), r.choice([-1, 1]) * 10 ** r.uniform(-3, 3)],
                 13: [10 ** r.uniform(-9, 0), r.choice([-1, 1]) * 10 ** r.uniform(-3, 3)],
                 8: [root, 10 ** r.uniform(-4, 0)], 9: [root, 10 ** r.uniform(-4, 4), 10 ** r.uniform(-4, 4)]}[k]
            if k == 3:
                a, b = -10.0 * r.random(), 10.0 * r.random()
                p[1] = math.exp(p[0] * r.uniform(-12, 12))
            if k == 13:
                a, b = 0.0, 1.0 + r.random()
            if k in (10, 11) and r.random() < 0.7:
                p[0] = r.random()
                a, b = 0.0, 1.0
            if k == 1 and p[0] < 0:
                p[2] = -p[2]
        if k == 0 and r.random() < 0.3:  # very small or very large values
            z = 10.0 ** r.choice([-300, -200, -170, 160, 200, 290])
            p = [z * x for x in p]
            if r.random() < 0.5:
                p = [abs(x) + z for x in p]
        tol = r.choice([1e-12, 1e-9, 2e-8, 1e-6, 1e-3, 0.1, 0.0])
        res.append([f"brent {k} {hx(a)} {hx(b)} {hx(tol)} {len(p)} " + " ".join(map(hx, p))])
    return res


def c17(ck):
    H = '{"-2","-1","0","0.001","1","1000"}'
    for K in ((2, 3, 4) if ck.thorough else (2, 3)):
        out = ck.model("BrentMC", cfg(dict(Heights=H, K=K, Tol='"1e-9"', Emit="TRUE"),
                                      ["Inside", "Bracketed", "Bounded", "Refused", "Root", "EmitScripts"], "Stops"),
                       f"piecewise linear functions, {K} pieces")
        scripts = []
        for (f,) in gen.emitted(out):
            v = " ".join(hx(float(x)) for x in f)
            scripts.append([f"brent 0 {hx(0.0)} {hx(float(K))} {hx(tol)} {K + 1} {v}" for tol in (1e-9, 0.01)] +
                           [f"brent 0 {hx(float(K))} {hx(0.0)} {hx(1e-9)} {K + 1} {v}"])
        call_traces(ck, "C17", scripts, f"functions of the specification ({K} pieces)", group=500)
    call_traces(ck, "C17", functions(ck, 60000 if ck.thorough else 9000), "random functions", group=100)


# ------------------------------------------------------------ C15, C16 ----
def c15(ck):
    bind.py_check(ck)


def c16(ck):
    bind.js_check(ck)


# ------------------------------------------------------------------ C19 ----
def c19(ck):
    r = random.Random(ck.seed + 19)
    scripts = []
    runs = 40 if ck.thorough else 12
    for _ in range(8 if ck.thorough else 1):
        for dist in range(1, 6):
            for q, level, cap in [(1e-2, 0.9, 200), (5e-3, 0.95, 200), (5e-3, 0.98, 500), (5e-3, 0.98, 100), (2e-2, 0.9, 100),
                                  (5e-3, 0.9, 500)]:
                for low in (0, 1):
                    scale = 10.0 ** r.randint(-3, 2)
                    loc = r.choice([0, 0, 30, -30, 1000]) * scale
                    scripts.append(["fullwin 0", init(0, q=q, low=low, disc=0, level=level, cap=cap),
                                    f"calib 0 {dist} {hx(scale)} {hx(loc)} {r.randint(1, 10 ** 9)} {r.choice([2000, 3000])} 20000 {runs}"])
    r.shuffle(scripts)
    spot_traces(ck, "C19", scripts, "independent data", group=2)


# ------------------------------------------------------------------ C18 ----
def neg(line):
    """The mirror image of a concrete call (detector 1, lower tail)."""
    t = line.split()
    f = lambda h: hx(-dbl_hex(h))
    if t[0] == "init":
        return f"init 1 {t[2]} {1 - int(t[3])} {t[4]} {t[5]} {t[6]}"
    if t[0] == "fit":
        return " ".join([t[0], "1", t[2]] + [f(x) for x in t[3:]])
    if t[0] in ("step", "prob"):
        return f"{t[0]} 1 v {f(t[3])}"
    return " ".join([t[0], "1"] + t[2:])


def dbl_hex(h):
    import struct

    return struct.unpack(">d", bytes.fromhex(h))[0]


def concrete(e, d=0):
    if e["k"] == "init":
        return f"init {d} {hx(dbl(e['q']))} {e['low']} {e['disc']} {hx(dbl(e['level']))} {int(dbl(e['cap']))}"
    if e["k"] == "fit":
        return f"fit {d} {len(e['data'])} " + " ".join(hx(dbl(x)) for x in e["data"])
    if e["k"] == "step":
        return f"step {d} v {hx(dbl(e['x']))}"
    if e["k"] == "quant":
        return f"quant {d} v {hx(dbl(e['r']))}"
    if e["k"] == "prob":
        return f"prob {d} v {hx(dbl(e['z']))}"
    return None


def mirror_base(r, steps):
    """An upper tail stream whose excess threshold is the median of five data (never moved afterwards)."""
    p = gen.params(r)
    p["low"] = 0
    s = [init(0, **p)]
    for _ in range(r.choice([1, 1, 2, 3])):
        data = gen.draw(r, r.choice(gen.KINDS), 5, r.choice([1.0, 20.0]), r.choice([0.0, -4.0]))
        hi, lo = max(data), min(data)
        for _ in range(r.choice([0, 0, 8, 30])):  # new extremes do not move the median marker
            if r.random() < 0.6:
                hi += r.expovariate(1)
                data.append(hi)
            else:
                lo -= r.expovariate(1)
                data.append(lo)
        s.append(fit(0, data))
        for _ in range(steps):
            s.append(gen.query(r, 0) if r.random() < 0.2 else gen.one_step(r, 0, True))
    return s


def c18(ck):
    n = 3000 if ck.thorough else 300
    r = random.Random(ck.seed + 18)
    out = ck.model("SpotMC", cfg(dict(Depth=3, Caps="{1,2,3}", StepOps=STEP_OPS, FitOps=FIT_OPS, QueryOps=QUERY_OPS, Emit="TRUE"),
                                 ["I18", "EmitScripts"]), "all sequences of 3 calls: the mirrored run is the mirror image")
    items = [x for x in gen.emitted(out) if x[0] == 0]
    base = gen.from_spec(sample(ck, items, None if ck.thorough else 1500))
    base += [mirror_base(r, r.choice([10, 30])) for _ in range(n)]
    scripts = []
    for events in ck.events_of(ck.execute(base, "upper")):
        a = [concrete(e) for e in events[1:]]
        if None in a:
            continue
        scripts.append(a + [neg(x) for x in a] + ["twin 0 1 mirror"])
    twin_traces(ck, scripts, "mirrored runs")


# ------------------------------------------------------------------ C20 ----
EXTREME = [0.0, -0.0, 5e-324, -5e-324, 1e-310, 2.2250738585072014e-308, 1e-160, 1e-20, -1e-20, 1.0, -1.0, 3.0, 1e8, 2147483648.0,
           -2147483649.0, 4294967296.0, 9223372036854775808.0, 1.9e19, 1e100, -1e100, 1e155, 1e160, 1e300, -1e300,
           1.7976931348623157e308, -1.7976931348623157e308, INF, -INF, NAN]


def wild(r, special=0.5):
    """Any double."""
    k = r.random()
    if k < special:
        return r.choice(EXTREME)
    if k < special + 0.1:
        return dbl_hex("%016x" % r.getrandbits(64))
    if k < special + 0.2:
        return r.choice([-1, 1]) * 10 ** r.uniform(-320, 308)
    return r.gauss(0, 3)


def wild_init(r, d, valid=True):
    """Any parameters that are accepted (or any parameters)."""
    if not valid:
        return f"init {d} {hx(wild(r))} {r.randint(-2 ** 31, 2 ** 31 - 1)} {r.randint(-2, 2)} {hx(wild(r))} {r.choice([0, 1, 5, 2 ** 61, 2 ** 64 - 1])}"
    level = r.choice([0.0, 5e-324, 0.5, 0.98, 1 - 2.0 ** -53, 1 - 1e-9, r.random()])
    q = (1 - level) * r.choice([1 - 1e-9, 0.5, 1e-3, 1e-9, 1e-300])
    if r.random() < 0.2:
        q = 5e-324
    return f"init {d} {hx(q)} {r.choice([0, 1, -1, 2 ** 31 - 1])} {r.choice([0, 1, 1, -7])} {hx(level)} {r.choice([1, 2, 3, 5, 20])}"


def wild_batch(r):
    m = r.choice([0, 1, 4, 5, 5, 6, 8, 20, 60])
    k = r.random()
    if k < 0.4:
        return [wild(r) for _ in range(m)]
    base = gen.draw(r, r.choice(gen.KINDS), m, abs(wild(r, 0.8)), r.choice([0.0, wild(r)]))
    for _ in range(r.choice([0, 1, 2])):
        if m:
            base[r.randrange(m)] = wild(r, 0.9)
    return base


def wild_script(r, steps=25):
    """A detector under any data, any parameters, any queries, fitted or not."""
    s = []
    if r.random() < 0.3:
        s += [f"junk 0 {r.choice([0, 255, 127, -3])}"] + [wild_init(r, 0, False) for _ in range(3)]
        s += ["failin 0", wild_init(r, 0), "failin -1", "free 0"] if r.random() < 0.5 else []
    s += [f"junk 0 {r.choice([0, 255, -2])}", wild_init(r, 0)]
    if r.random() < 0.8:
        s.append(fit(0, wild_batch(r)))
    for _ in range(steps):
        k = r.random()
        if k < 0.08:
            s.append(fit(0, wild_batch(r)))
        elif k < 0.2:
            s.append(f"quant 0 v {hx(wild(r))}")
        elif k < 0.3:
            s.append(f"prob 0 v {hx(wild(r))}")
        elif k < 0.36:
            s.append(gen.query(r, 0))
        elif k < 0.6:
            s.append(gen.one_step(r, 0, True))
        else:
            s.append(f"step 0 v {hx(wild(r)) if r.random() < 0.9 else r.choice(gen.NANS)}")
    s.append("free 0")
    return s


def wild_scripts(ck):
    r = random.Random(f"{ck.prop} {ck.seed}")
    return [wild_script(r) for _ in range(3000 if ck.thorough else 250)]


def wild_blocks(r, n):
    """The parts of the library under any arguments."""
    lines = []
    for _ in range(n):
        w = lambda: hx(wild(r))
        m = r.choice([1, 2, 3, 8, 25])
        data = wild_batch(r)
        seq = f"{len(data)} " + " ".join(map(hx, data))
        lines.append(f"p2 {r.choice([w(), hx(r.random())])} {seq}")
        if data:
            lines.append(f"est {r.choice([1, m, len(data)])} {seq}")
            lines.append(f"loglik {w()} {w()} {seq}")
        lines += [f"tq {w()} {w()} {w()} {w()}", f"tp {w()} {w()} {w()} {w()}"]
        for fn in ("exp", "log", "pow", "min", "nan", "logexp", "explog"):
            lines.append(f"math {fn} {w()} {w()}")
        k = r.randint(0, 13)
        p = [wild(r, 0.2) for _ in range(m + 4)]
        lines.append(f"brent {k} {w()} {w()} {w()} {len(p)} " + " ".join(map(hx, p)))
        lines.append(f"{r.choice(['uinit', 'pinit'])} {r.choice([0, 1, 2, 5, 2 ** 61, 2 ** 64 - 1])}")
        pre = "p" if lines[-1][0] == "p" else "u"
        if int(lines[-1].split()[1]) in (1, 2, 5):
            lines += [f"{pre}push {w()}" for _ in range(8)] + [pre + "free"]
    return lines


def c20(ck):
    out = ck.model("SpotMC", cfg(dict(Depth=4 if ck.thorough else 3, Caps="{1,2,3}" if ck.thorough else "{1,2}",
                                      StepOps='{"T","Z+1","+inf","-inf","NaN","max","-max","tiny","zero"}',
                                      FitOps='{"fit5","fithuge","fittiny","fitinf","fitnan","fitnans","fit0"}',
                                      QueryOps='{"quant0","quantinf","probnan","probinf"}', Emit="TRUE"), ["I20", "EmitScripts"]),
                   "all sequences of calls, extreme data", timeout=3000)
    r = random.Random(ck.seed + 20)
    n = 6000 if ck.thorough else 600
    det = gen.from_spec(sample(ck, gen.emitted(out), 10 * n if ck.thorough else n))
    det += [wild_script(r) for _ in range(n)] + gen.streams(ck.seed + 20, n // 6, steps=30, ext=True) + [[x for x in edge_script(r) if not x.startswith("inject")] for _ in range(n // 12)]
    parts = [wild_blocks(r, 5) for _ in range(n // 4)]
    parts += [[f"text {w} {c} {k} {z} 2" for k in (0, 1, 7, 64, 300) for z in (0, 1)] for w, c in
              [("version", 0), ("license", 0)] + [("error", c) for c in (1000, 1003, 1005, 999, -1, 2 ** 31 - 1)]]
    scripts = det + parts
    ref = ck.execute(scripts, "any-data", group=20)
    ck.validate("SpotTrace", ["C20"], ref, "any data", scripts)
    for what, builds in (("sanitizers", ("ub", "msan", "asan")), ("other compilations", ("O0", "Os", "c0", "c3"))):
        runs = [b for b in builds if what != "sanitizers" or ck.runs(b)]
        ck.extra.setdefault("builds", []).extend(runs)
        files = [ck.pairs(ref, ck.execute(scripts, b, build=b, group=20), b) for b in runs]
        ck.validate("PairTrace", ["Portable"], ck.joined(files, what.split()[0]), what, scripts)


ALL = {k: v for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit() and callable(v)}

"""Generators of scripts of calls (see harness/driver.c for the commands).

Scripts come from the specification (sequences of symbolic calls printed by
TLC) and from seeded random streams."""
import json
import math
import random
import re

from vlib import hx

NAN, INF = float("nan"), float("inf")
# NaN of either sign, quiet or signalling, several payloads
NANS = ["7ff8000000000000", "fff8000000000000", "7ff0000000000001", "fff0000000000001", "7fffffffffffffff", "ffffffffffffffff",
        "7ff0000080000000", "7ff8000000000001", "7ff4000000000000"]


# ------------------------------------------------- sequences emitted by TLC
def emitted(out):
    """The values printed by EmitScripts: nested lists."""
    res = []
    for chunk in out.split('<<"SCRIPT",')[1:]:
        chunk = re.sub(r"\s+", " ", chunk)
        depth, i = 1, 0
        while depth and i < len(chunk):
            if chunk.startswith("<<", i):
                depth += 1
                i += 2
            elif chunk.startswith(">>", i):
                depth -= 1
                i += 2
            else:
                i += 1
        res.append(json.loads("[" + chunk[:i - 2].replace("<<", "[").replace(">>", "]") + "]"))
    return res


def ulps(x, k):
    for _ in range(abs(k)):
        x = math.nextafter(x, INF if k > 0 else -INF)
    return x


BATCH = {
    "fit5": [3, 1, 2, 5, 4.5],
    "fit9": [0.5, 7.25, 1.5, 2.75, 3, 0.125, 4, 11, 2.5],
    "fitconst": [2] * 6,
    "fitshort": [1, 2, 3, 4],
    "fitties": [1, 1, 2, 2, 3, 3, 3, 1],
    "fit0": [],
    "fithuge": [1e300, -1e300, 1e308, 3e299, -1e308, 7e307, 1e300],
    "fittiny": [5e-324, 0.0, 1e-310, 2e-308, -5e-324, 1e-300],
    "fitinf": [1, 2, INF, 3, -INF, 4, 9, INF],
    "fitnan": [1, 2, NAN, 3, 4, 7, 9],
    "fitnans": [NAN] * 6,
}
QUERY = {"quant": "quant %d R " + hx(0.25), "prob": "prob %d A " + hx(0.75), "quant0": "quant %d v " + hx(0.0),
         "quantinf": "quant %d v " + hx(INF), "probnan": "prob %d v " + hx(NAN), "probinf": "prob %d v " + hx(INF)}
STEP = {
    "T-1": "T -1", "T": "T 0", "T+1": "T 1", "Z-1": "Z -1", "Z": "Z 0", "Z+1": "Z 1",
    "B": "A " + hx(-1.5), "E1": "A " + hx(0.625), "E2": "A " + hx(2.25),
    "M": "M " + hx(0.3), "F": "M " + hx(3.0),
    "+inf": "v " + hx(INF), "-inf": "v " + hx(-INF), "NaN": "v " + hx(NAN),
    "max": "v " + hx(1.7976931348623157e308), "-max": "v " + hx(-1.7976931348623157e308), "tiny": "v " + hx(5e-324), "zero": "v " + hx(0.0),
}


def init(d, q=0.01, low=0, disc=1, level=0.5, cap=3):
    return f"init {d} {hx(q)} {low} {disc} {hx(level)} {cap}"


def fit(d, data):
    return f"fit {d} {len(data)} " + " ".join(map(hx, data))


def call(d, op, low):
    """A symbolic call of spec/Alphabet.tla."""
    if op in BATCH:
        return fit(d, [-x if low else x for x in BATCH[op]])
    if op in QUERY:
        return QUERY[op] % d
    return f"step {d} {STEP[op]}"


def from_spec(items):
    """Scripts of SpotMC: [low, disc, cap, ops]."""
    return [[init(0, low=low, disc=disc, cap=cap)] + [call(0, op, low) for op in ops]
            for low, disc, cap, ops in items]


# ------------------------------------------------------------ random data --
def draw(r, kind, n, scale=1.0, off=0.0):
    f = {
        "exp": lambda: r.expovariate(1),
        "pareto": lambda: r.paretovariate(2.5),
        "heavy": lambda: r.paretovariate(1.1),
        "gauss": lambda: r.gauss(0, 1),
        "unif": lambda: r.random(),
        "beta": lambda: r.betavariate(1, 3),
        "ties": lambda: float(r.randint(0, 8)),
        "round": lambda: round(r.gauss(0, 1), 1),
        "const": lambda: 2.0,
        "two": lambda: float(r.randint(0, 1)),
        "mix": lambda: r.gauss(0, 1) if r.random() < 0.9 else r.expovariate(0.2),
        "zeros": lambda: 0.0 if r.random() < 0.7 else r.expovariate(1),
        "start": lambda: r.gauss(0, 1),
    }[kind]
    if kind == "start":  # a sensor that starts with a constant value
        k = min(n, r.randint(5, 12))
        return [off + scale * r.choice([0.0, -3.0, 3.0])] * k + [off + scale * f() for _ in range(n - k)]
    return [off + scale * f() for _ in range(n)]


REGULAR = ["exp", "pareto", "gauss", "unif", "beta", "mix"]
KINDS = REGULAR + ["heavy", "ties", "round", "const", "two", "zeros", "start"]
# dyadic levels: the desired positions of the P2 markers are exact
LEVELS = [0.5, 0.75, 0.875, 0.9375, 0.984375]
CAPS = [1, 2, 3, 4, 5, 7, 16, 20, 50]


def sgn(low, data):
    return [-x for x in data] if low else data


def one_step(r, d, ext=True, disc=1):
    """A datum around the thresholds."""
    k = r.random()
    if k < 0.12:
        return f"step {d} T {r.choice([-2, -1, 0, 0, 1, 2])}"
    if k < 0.24:
        return f"step {d} Z {r.choice([-2, -1, 0, 0, 1, 2])}"
    if k < 0.45:
        return f"step {d} M {hx(r.uniform(0, 1))}"
    if k < 0.6:
        return f"step {d} A {hx(r.expovariate(1))}"
    if k < 0.7:
        return f"step {d} A {hx(-r.expovariate(1))}"
    if k < 0.78:
        return f"step {d} M {hx(r.uniform(1, 4))}"
    if k < 0.86:
        return f"step {d} v {hx(r.gauss(0, 3))}"
    if k < 0.90:
        return f"step {d} v {r.choice(NANS)}"
    if ext and k < 0.93:
        return f"step {d} v {hx(r.choice([INF, -INF, 1e308, -1e308, 0.0, -0.0]))}"
    return f"step {d} M {hx(r.choice([0.0, 0.25, 0.5, 1.0]))}"


def query(r, d):
    if r.random() < 0.5:
        return f"quant {d} " + r.choice([f"R {hx(r.random())}", f"R {hx(10 ** r.uniform(-6, 0))}", "Q", f"R {hx(1.0)}"])
    return f"prob {d} " + r.choice([f"M {hx(r.uniform(0, 2))}", "T 0", "Z 0", f"A {hx(r.expovariate(1))}",
                                    f"M {hx(r.uniform(2, 50))}"])


def params(r, caps=None, levels=None):
    level = r.choice(levels or LEVELS)
    q = r.choice([1e-2, 1e-3, 1e-4, 1e-6, 1e-9, 0.3, 0.9, 0.999]) * (1 - level)
    return dict(q=q, low=r.randint(0, 1), disc=r.choice([1, 1, 0]), level=level, cap=r.choice(caps or CAPS))


def stream(r, steps=40, ext=False, caps=None, kinds=None, d=0, refit=True, queries=0.1, offsets=True, far=0.0):
    """init, fit(s), steps and queries on one detector (far: how often its counters are fast-forwarded)."""
    p = params(r, caps)
    s = [init(d, **p)]
    if r.random() < 0.15:
        s += [one_step(r, d) for _ in range(3)] + [query(r, d)]
    if r.random() < 0.15:
        s.append(fit(d, draw(r, "exp", r.randint(0, 4))))
    n = r.choice([5, 6, 12, 30, 100, 200])
    sc = r.choice([1.0, 1.0, 10.0, 0.25, 1000.0]) if offsets else 1.0
    off = r.choice([0.0, 0.0, 5.0, -3.0, 100.0]) if offsets else 0.0
    if offsets and r.random() < 0.15:
        sc = r.choice([1e-9, 1e-6, 1e-4, 1e5, 1e7, 1e10, 1e15])
        off *= sc
    s.append(fit(d, sgn(p["low"], draw(r, r.choice(kinds or KINDS), n, sc, off))))
    jump = r.randrange(steps) if r.random() < far else -1
    for i in range(steps):
        if i == jump:
            n = int(2 ** r.uniform(10, 40)) if r.random() < 0.8 else 2 ** r.choice([31, 32, 48, 52]) - r.randint(1, 4)
            s.append(f"inject {d} {n} {max(1, int(n * min(1, (1 - p['level']) * r.choice([0.5, 1, 1, 1.5]))))}")
        if r.random() < queries:
            s.append(query(r, d))
        elif refit and r.random() < 0.02:
            s.append(fit(d, sgn(p["low"], draw(r, r.choice(kinds or KINDS), r.choice([3, 5, 8, 40]), sc, off))))
        else:
            s.append(one_step(r, d, ext and r.random() < 0.5, p["disc"]))
    return s


def streams(seed, count, **kw):
    r = random.Random(seed)
    return [stream(r, **kw) for _ in range(count)]

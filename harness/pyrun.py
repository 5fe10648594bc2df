"""Executes operations on the Python binding and records what it exposes.

    pyrun.py MODULE_DIR OPS.json OUT.ndjson

OPS: list of scripts, a script is a list of operations [op, object, args]."""
import ctypes
import gc
import glob
import json
import os
import struct
import sys

moddir, opsfile, outfile = sys.argv[1:4]
sys.path.insert(0, moddir)
import libspot  # noqa: E402
from libspot import Spot  # noqa: E402

so = ctypes.CDLL(glob.glob(os.path.join(moddir, "libspot*.so"))[0])
so.verif_live.restype = ctypes.c_long
live = so.verif_live

try:
    import numpy
except ImportError:
    numpy = None
import array
import collections

out = open(outfile, "w")


def dw(x):
    u = struct.unpack(">Q", struct.pack(">d", x))[0]
    if x != x:
        u = 0x7FF8000000000000
    return list(struct.unpack(">ii", struct.pack(">Q", u)))


def und(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


def state(o):
    a = o.as_dict()
    t = a["tail"]
    p = t["peaks"]
    w = sorted(o.excesses(), key=lambda v: (v != v, v))
    w2 = sorted(p["container"]["data"], key=lambda v: (v != v, v))
    ok = len(w) == len(w2) and all(x == y or (x != x and y != y) for x, y in zip(w, w2))
    same = lambda x, y: x == y or (x != x and y != y)
    attrs = all(same(getattr(o, k), a[k]) for k in ("q", "level", "n", "Nt", "anomaly_threshold", "excess_threshold")) and \
        same(o.gamma, t["gamma"]) and same(o.sigma, t["sigma"])
    raw = o.raw()  # a copy: what the caller does with it does not matter
    kinds = all(type(a[k]) is float for k in ("q", "level", "anomaly_threshold", "excess_threshold")) and \
        all(type(a[k]) is int for k in ("n", "Nt", "low", "discard_anomalies")) and type(raw) is bytearray and o.raw() == raw
    raw[:] = bytes(len(raw))
    p["container"]["data"].clear()
    if not (ok and attrs and kinds):
        w = w + [float("nan")]  # inconsistent views of the same object
    return dict(q=dw(a["q"]), level=dw(a["level"]), low=a["low"], disc=a["discard_anomalies"],
                cap=dw(float(p["container"]["capacity"])), n=dw(float(a["n"])), Nt=dw(float(a["Nt"])),
                et=dw(a["excess_threshold"]), zq=dw(a["anomaly_threshold"]), g=dw(t["gamma"]), s=dw(t["sigma"]),
                e=dw(p["e"]), e2=dw(p["e2"]), mn=dw(p["min"]), mx=dw(p["max"]), size=len(w), full=1, win=[dw(x) for x in w])


class Sub(Spot):
    """A subclass with its own attributes."""

    def __init__(self, q, **kw):
        self.extra = [q, self]  # a cycle: only the collector releases the object
        super().__init__(q, **kw)


class Lazy(Spot):
    """A subclass that does not call the constructor."""

    def __init__(self):
        pass


class Floatable:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        return self.v


class Then:
    """A number whose conversion does something else first."""

    def __init__(self, v, f):
        self.v, self.f = v, f

    def __float__(self):
        f, self.f = self.f, None
        if f is not None:
            f()
        return self.v


class BadFloat:
    def __float__(self):
        raise ValueError("no float")


class Sequence:
    def __init__(self, v):
        self.v = v

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i]


def container(kind, data):
    if kind == "tuple":
        return tuple(data)
    if kind == "array":
        return array.array("d", data)
    if kind == "numpy" and numpy is not None:
        return numpy.array(data)
    if kind == "numpyslice" and numpy is not None:
        big = numpy.zeros(2 * len(data) + 1)
        big[1::2] = data
        return big[1::2]
    if kind == "deque":
        return collections.deque(data)
    if kind == "ints" and all(x == int(x) for x in data if abs(x) < 1e9):
        return [int(x) if abs(x) < 1e9 else x for x in data]
    if kind == "sequence":
        return Sequence(data)
    if kind == "memoryview":
        return memoryview(array.array("d", data))
    if kind == "floatable":
        return [Floatable(x) for x in data]
    if kind == "float32" and numpy is not None:
        return numpy.array(data, dtype=numpy.float32)
    if kind == "range":
        return range(len(data))
    if kind == "shuffled":  # the list is emptied and filled again during the conversion
        res = []

        def again():
            res.clear()
            gc.collect()
            res.extend(Floatable(x) for x in data)

        res.extend(Then(x, again if i in (0, len(data) // 2) else None) for i, x in enumerate(data))
        return res
    return list(data)


BAD = {
    "fit none": lambda o: o.fit(None), "fit int": lambda o: o.fit(3), "fit str": lambda o: o.fit("abcdefg"),
    "fit mixed": lambda o: o.fit([1.0, 2.0, 3.0, 4.0, 5.0, "x", 7.0]), "fit nones": lambda o: o.fit([None] * 9),
    "fit badfloat": lambda o: o.fit([1.0] * 8 + [BadFloat()]), "fit nested": lambda o: o.fit([[1.0, 2.0]] * 7),
    "fit missing": lambda o: o.fit(), "fit complex": lambda o: o.fit([1j] * 6),
    "step none": lambda o: o.step(None), "step str": lambda o: o.step("1.0"), "step list": lambda o: o.step([1.0]),
    "step badfloat": lambda o: o.step(BadFloat()), "step missing": lambda o: o.step(), "step two": lambda o: o.step(1.0, 2.0),
    "step big": lambda o: o.step(10 ** 400),
    "quant none": lambda o: o.quantile(None), "quant str": lambda o: o.quantile("0.1"), "quant badfloat": lambda o: o.quantile(BadFloat()),
    "prob none": lambda o: o.probability(None), "prob dict": lambda o: o.probability({}), "prob badfloat": lambda o: o.probability(BadFloat()),
    "set q": lambda o: setattr(o, "q", 0.5), "set n": lambda o: setattr(o, "n", 3),
}
BADNEW = {
    "noargs": lambda: Spot(), "str": lambda: Spot("a"), "none": lambda: Spot(None), "level str": lambda: Spot(1e-3, level="x"),
    "low str": lambda: Spot(1e-3, low="x"), "low float": lambda: Spot(1e-3, low=0.5), "kw": lambda: Spot(1e-3, foo=1), "positional": lambda: Spot(1e-3, 1),
    "max str": lambda: Spot(1e-3, max_excess="x"), "max float": lambda: Spot(1e-3, max_excess=10.5), "badfloat": lambda: Spot(BadFloat()),
    "disc none": lambda: Spot(1e-3, discard_anomalies=None),
    # values that do not fit narrower integers
    "max wide": lambda: Spot(1e-3, max_excess=2 ** 32 + 5), "max wider": lambda: Spot(1e-3, max_excess=2 ** 40 + 500),
    "low wide": lambda: Spot(1e-3, low=2 ** 32), "disc wide": lambda: Spot(1e-3, discard_anomalies=2 ** 32 + 1),
}


def attempt(f):
    try:
        return f(), "", ""
    except BaseException as e:
        return None, type(e).__name__, str(e)


def starved(f):
    """The first allocation of the module fails: (answer, exception, message), and whether there was one."""
    so.verif_fail(1)
    try:
        res = attempt(f)
    finally:
        hit = so.verif_fail(0)
    return res, bool(hit)


def run(script, sid):
    objs = {}
    oom = False
    base = live()
    out.write(json.dumps(dict(k="new", d=-1, id=sid)) + "\n")

    def emit(op, d, b, **kw):
        o = objs.get(d)
        if o is not None and op != "del":
            b["st"] = state(o)
        out.write(json.dumps(dict(k="op", op=op, d=d, b=b, live=-1 if inside else live() - base, **kw)) + "\n")
        out.flush()

    inside = []

    def call(op, d, f, args, keep=None):
        """A construction or a fit, perhaps with a failing allocation."""
        (r, exc, msg), hit = starved(f) if oom else (attempt(f), False)
        if exc == "" and keep:
            keep(r)
        del r
        gc.collect()
        b = dict(exc=exc, msg=msg, ret=0)
        if hit:
            emit("bad", d, b, allowed=["MemoryError", "RuntimeError"], what="no memory: " + op)
        else:
            emit(op, d, b, args=args)

    def nested(d, o, x):
        """Another operation on the same object, inside the conversion of an argument."""
        if not o.q > 0:
            return  # not constructed
        inside.append(1)  # the call under way may hold memory
        if len(script) % 3 == 0:
            _, exc, msg = attempt(lambda: Spot.__init__(o, 1e-3, max_excess=4, level=0.5))
            emit("init", d, dict(exc=exc, msg=msg, ret=0), args=dict(q=dw(1e-3), low=0, disc=1, level=dw(0.5), cap="4"))
        elif len(script) % 3 == 1:
            data = [x, 1.0, 2.5, -3.0, 0.5, 7.0, x / 2]
            _, exc, msg = attempt(lambda: o.fit(data))
            emit("fit", d, dict(exc=exc, msg=msg, ret=0), args=[dw(v) for v in data])
        else:
            r, exc, msg = attempt(lambda: o.step(x))
            emit("step", d, dict(exc=exc, msg=msg, ret=0 if exc else r if isinstance(r, int) else -99999), args=dw(x))
        inside.clear()

    for op, d, *args in script:
        if op == "oom":
            oom = True
            continue
        o = objs.get(d)
        if o is None and op not in ("new", "hollow", "badnew", "version", "del"):
            continue
        if op == "new":
            kw, cls = args
            kw = {k: (und(v) if isinstance(v, list) else v) for k, v in kw.items()}
            q = kw.pop("q")
            full = dict(q=dw(q), low=int(kw.get("low", 0)), disc=int(kw.get("discard_anomalies", 1)),
                        level=dw(kw.get("level", 0.98)), cap=str(int(kw.get("max_excess", 500)) % 2 ** 64))
            # the constructor may raise: keep the object only if it exists
            C = {"Spot": Spot, "Sub": Sub}[cls]
            call("init", d, lambda: C(q, **kw), full, lambda r: objs.__setitem__(d, r))
        elif op == "hollow":
            objs[d] = Lazy() if args[0] else Spot.__new__(Spot)
            emit("hollow", d, dict(exc="", msg="", ret=0))
        elif op == "reinit":
            (kw,) = args
            kw = {k: (und(v) if isinstance(v, list) else v) for k, v in kw.items()}
            q = kw.pop("q")
            full = dict(q=dw(q), low=int(kw.get("low", 0)), disc=int(kw.get("discard_anomalies", 1)),
                        level=dw(kw.get("level", 0.98)), cap=str(int(kw.get("max_excess", 500)) % 2 ** 64))
            call("init", d, lambda: Spot.__init__(o, q, **kw), full)
        elif op == "badnew":
            _, exc, msg = attempt(BADNEW[args[0]])
            emit("bad", d, dict(exc=exc, msg=msg, ret=0), allowed=args[1], what=args[0])
        elif op == "bad":
            _, exc, msg = attempt(lambda: BAD[args[0]](o))
            emit("bad", d, dict(exc=exc, msg=msg, ret=0), allowed=args[1], what=args[0])
        elif op == "fit":
            kind, data = args
            data = [und(x) for x in data]
            if kind == "range":
                data = [float(x) for x in range(len(data))]
            if kind == "float32" and numpy is not None:
                data = [float(numpy.float32(x)) for x in data]
            if oom and kind in ("nested", "shuffled"):
                kind = "list"
            if kind == "nested" and data:
                given = list(data)
                given[len(data) // 2] = Then(data[len(data) // 2], lambda: nested(d, o, data[0]))
            else:
                given = container(kind, data)
            call("fit", d, lambda: o.fit(given), [dw(x) for x in data])
            given = None
        elif op in ("step", "prob", "quant"):
            mode, v = args
            v = und(v)
            if op == "quant":
                x = v * (o.Nt / o.n) if mode == "R" and o.n else v
            elif mode == "M":
                x = o.excess_threshold + v * (o.anomaly_threshold - o.excess_threshold)
                x = v if x != x else x
            else:
                x = v
            arg = {"F": Floatable(x), "T": Then(x, lambda: nested(d, o, x)), "I": int(x) if x == x and abs(x) < 1e9 and x == int(x) else x,
                   "N": numpy.float64(x) if numpy else x}.get(mode, x)
            f = {"step": "step", "prob": "probability", "quant": "quantile"}[op]
            r, exc, msg = attempt(lambda: getattr(o, f)(arg))
            r = 0 if exc else ((r if isinstance(r, int) else -99999) if op == "step" else dw(r))
            emit(op, d, dict(exc=exc, msg=msg, ret=r), args=dw(x))
        elif op == "del":
            objs.pop(d, None)
            o = None
            gc.collect()
            emit("del", d, dict(exc="", msg="", ret=0))
        elif op == "dict":
            c = o.as_dict()["tail"]["peaks"]["container"]
            emit("dict", d, dict(exc="", msg="", ret=0, cursor=dw(float(c["cursor"])), filled=c["filled"],
                                 led=dw(c["last_erased_data"]), data=[dw(x) for x in c["data"]], data2=[dw(x) for x in o.excesses()]))
        elif op == "version":
            emit("version", d, dict(exc="", msg="", ret=str(libspot.__version__)))
        o = None
        oom = False
    objs.clear()
    gc.collect()


def leaks():
    """Blocks, references and interpreter memory after many lives: 0 if nothing accumulates."""

    def life(k):
        for _ in range(k):
            s = Spot(1e-3, max_excess=7)
            s.fit([1.0, 2.0, 3.0, 4.0, 5.0, 6.5])
            s.step(9.0), s.excesses(), s.as_dict(), s.quantile(0.1), s.probability(3.0), s.raw()
            s.__init__(1e-3, max_excess=9)
            for f in (lambda: s.fit([1.0]), lambda: s.fit(["a"] * 7), lambda: s.step(None), lambda: Spot(2.0), lambda: s.__init__(7.0),
                      lambda: Spot(1e-3, max_excess=2 ** 61), lambda: s.fit(None), lambda: s.quantile("a"), lambda: s.probability("a")):
                try:
                    f()
                except Exception:
                    pass
            for f in (lambda: s.fit([1.0] * 9), lambda: Spot(1e-3), lambda: s.__init__(1e-3)):
                starved(f)
            Sub(1e-3)
            Lazy()
        gc.collect()

    life(50)
    res = []
    for _ in range(3):
        r0, b0, l0 = sys.getrefcount(Spot), sys.getallocatedblocks(), live()
        n0 = sys.getrefcount(None)
        life(400)
        r1, b1, l1 = sys.getrefcount(Spot), sys.getallocatedblocks(), live()
        imm = abs(sys.getrefcount(None) - n0)
        res.append(max(abs(r1 - r0) // 100, (b1 - b0) // 200 if b1 > b0 else 0, abs(l1 - l0), 0 if imm < 300 else 1))
    return min(res)


def safely(f, *a):
    """An exception out of place (left behind by the module, or by a view of the object) ends the run."""
    try:
        f(*a)
    except BaseException as e:
        out.write(json.dumps(dict(k="crash", d=-1, what=f"{type(e).__name__}: {e}")) + "\n")
        out.close()
        sys.exit(0)


def final():
    out.write(json.dumps(dict(k="new", d=-1, id=999999)) + "\n")
    out.write(json.dumps(dict(k="op", op="end", d=-1, b=dict(exc="", msg="", ret=0), live=-1, leak=leaks())) + "\n")
    for name, val in (("NORMAL", 0), ("EXCESS", 1), ("ANOMALY", 2)):
        if getattr(libspot, name) != val:
            raise ValueError(name)


for sid, script in enumerate(json.load(open(opsfile))):
    safely(run, script, sid)
safely(final)
out.close()

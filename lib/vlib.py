"""Machinery shared by the checks: scratch directory, builds of /repo, TLC runs,
trace validation, reports and evidence."""
import glob
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class Rejected(Exception):
    """A trace was rejected: the check ends here."""


SANITIZERS = dict(TSAN_OPTIONS="halt_on_error=1:exitcode=66:log_path=/dev/null", MSAN_OPTIONS="exitcode=66:log_path=/dev/null",
                  UBSAN_OPTIONS="log_path=/dev/null",
                  ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:log_path=/dev/null:allocator_may_return_null=1")
UBSAN = "signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,bool,return,unreachable,vla-bound,alignment,null"


class CheckError(Exception):
    """The check itself failed: no verdict."""


# --------------------------------------------------------------- doubles ---
def hx(x):
    """A double as the driver reads it."""
    return struct.pack(">d", x).hex()


def dbl(p):
    """A double as the driver writes it."""
    return struct.unpack(">d", struct.pack(">ii", p[0], p[1]))[0]


def words(x):
    return list(struct.unpack(">ii", struct.pack(">d", x)))


def pretty(o):
    """Replace the [hi, lo] pairs of an event by decimal numbers."""
    if isinstance(o, dict):
        return {k: (v if k == "bytes" else pretty(v)) for k, v in o.items()}
    if isinstance(o, list):
        if len(o) == 2 and all(isinstance(v, int) for v in o):
            return repr(dbl(o))
        return [pretty(v) for v in o]
    return o


# ------------------------------------------------------------------ check ---
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self._classes = None
        self.findings = json.load(open(f"{VERIF}/known_findings.json"))["findings"]

    # -- files
    def path(self, name):
        return os.path.join(self.scratch, name)

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- TLC
    def classes(self):
        if not self._classes:
            out = self.path("classes")
            os.makedirs(out)
            run(["javac", "-cp", CP, "-d", out] + glob.glob(f"{VERIF}/java/*.java"))
            self._classes = out
        return self._classes

    def tlc(self, module, cfg, env=None, workers=None, timeout=800, extra=(), heap="3g"):
        """Run TLC; returns (status, output): ok, violated, or CheckError."""
        meta = tempfile.mkdtemp(dir=self.scratch, prefix="meta")
        e = dict(os.environ)
        e["SPOT_VERSION"] = version()
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cfgfile = os.path.join(meta, "check.cfg")
        open(cfgfile, "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:F64Overrides",
               "-cp", f"{self.classes()}:{CP}", "tlc2.TLC", "-workers",
               str(workers or NCPU), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfgfile, *extra, module]
        try:
            p = subprocess.run(cmd, cwd=f"{VERIF}/spec", env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    def count(self, out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
            return int(m[-1][0]), int(m[-1][1])
        return 0, 0

    def model(self, module, cfg, what, **kw):
        """Exhaustive check of the specification: it must hold."""
        rc, out = self.tlc(module, cfg, **kw)
        if rc != 0:
            raise CheckError(f"model {module} ({what}): TLC exit {rc}\n" + tail(out))
        g, d = self.count(out)
        self.log(f"model {module} [{what}]: {d} distinct states, {g} generated")
        self.extra.setdefault("models", []).append(
            dict(module=module, what=what, distinct_states=d, generated=g))
        return out

    # -- builds
    def lib_objects(self, cc="gcc", flags=("-O3",), tag="o"):
        """Compile /repo/src with the flags of its Makefile."""
        objs = []
        d = self.path("obj-" + tag)
        os.makedirs(d, exist_ok=True)
        for src in sorted(glob.glob(f"{REPO}/src/*.c")):
            o = os.path.join(d, os.path.basename(src)[:-2] + ".o")
            run([cc, *flags, "-std=c99", f"-I{REPO}/include", f'-DVERSION="{version()}"',
                 "-c", src, "-o", o])
            objs.append(o)
        return objs

    BUILDS = dict(
        o=("gcc", ("-O3",)),
        asan=("gcc", ("-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer")),
        tsan=("gcc", ("-O1", "-g", "-fsanitize=thread")),
        # conversions and integer operations without a defined result (the library only)
        ub=("clang", ("-O1", "-g", "-fno-sanitize-recover=all", "-fsanitize=" + UBSAN)),
        # use of memory that was never written
        msan=("clang", ("-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer")),
        # the same library, other compilations
        O0=("gcc", ("-O0",)), Os=("gcc", ("-Os",)), c0=("clang", ("-O0",)), c3=("clang", ("-O3",)))
    WRAP = "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"

    def driver(self, tag="o"):
        exe = self.path("driver-" + tag)
        if os.path.exists(exe):
            return exe
        cc, fl = self.BUILDS[tag]
        objs = self.lib_objects(cc=cc, flags=fl, tag=tag)
        # the driver itself: with the sanitizers that need the whole program, always the same otherwise
        own = fl if tag in ("asan", "tsan", "msan") else ("-O3",)
        run([cc if own is fl else "gcc", *own, "-std=gnu99", f"-I{REPO}/include", "-c", f"{VERIF}/harness/driver.c", "-o", exe + ".o"])
        run([cc, *fl, exe + ".o", *objs, "-lm", "-lpthread", self.WRAP, "-o", exe])
        return exe

    def runs(self, build):
        """Can a program built in this way (sanitizers) run here?"""
        sf, tf = self.path("probe.script"), self.path("probe.ndjson")
        open(sf, "w").write("new 0\npar 0 mark 0\npar 1 mark 1\njoin\n")
        p = subprocess.run([self.driver(build), sf, tf], env=dict(os.environ, **SANITIZERS), capture_output=True)
        return p.returncode == 0 and '"crash"' not in open(tf).read()

    def pairs(self, ref, other, tag):
        """The traces of the same scripts on two builds, event by event."""
        from itertools import zip_longest

        files = []
        for i, (f, g) in enumerate(zip(ref, other)):
            out = self.path(f"pairs-{tag}-{i}.ndjson")
            with open(out, "w") as o:
                for a, b in zip_longest(open(f), open(g), fillvalue='{"k":"none"}\n'):
                    if a == b and a.startswith('{"k":"new"'):
                        o.write(a)
                    else:
                        o.write('{"k":"pair","d":-1,"a":%s,"b":%s}\n' % (a.strip(), b.strip()))
            files.append(out)
        return files

    def joined(self, lists, tag):
        """Lists of trace files as one list of longer files."""
        files = []
        for i, part in enumerate(zip(*lists)):
            out = self.path(f"joined-{tag}-{i}.ndjson")
            with open(out, "w") as o:
                for f in part:
                    shutil.copyfileobj(open(f), o)
            files.append(out)
        return files

    def execute(self, scripts, name, asan=False, group=50, shards=None, build=None):
        """Run scripts (lists of lines) on the real library: list of trace files.

        Script i is preceded by "new i".  `group` scripts share a process."""
        exe = self.driver(build or ("asan" if asan else "o"))
        shards = max(1, min(shards or NCPU, (len(scripts) + group - 1) // group))
        files = []
        procs = []
        per = (len(scripts) + shards - 1) // shards
        env = dict(os.environ, **SANITIZERS)
        for s in range(shards):
            part = list(enumerate(scripts))[s * per:(s + 1) * per]
            if not part:
                continue
            sf, tf = self.path(f"{name}-{s}.script"), self.path(f"{name}-{s}.ndjson")
            with open(sf, "w") as f:
                for j, (i, lines) in enumerate(part):
                    f.write(f"new {i}\n")
                    for line in lines:
                        f.write(line + "\n")
                    if (j + 1) % group == 0:
                        f.write("fork\n")
            procs.append((subprocess.Popen([exe, sf, tf], env=env, stderr=subprocess.PIPE, text=True), sf, tf))
            files.append(tf)
        for p, sf, tf in procs:
            try:
                _, err = p.communicate(timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                raise CheckError("driver timed out")
            if p.returncode != 0:
                raise CheckError(f"driver exit {p.returncode}: {err[-500:]}")
        return files

    def events_of(self, files):
        """The recorded events, script by script."""
        cur = []
        for f in files:
            for line in open(f):
                e = json.loads(line)
                if e["k"] == "new":
                    if cur:
                        yield cur
                    cur = []
                cur.append(e)
            if cur:
                yield cur
            cur = []

    # -- trace validation
    def validate(self, module, invariants, files, what, scripts=None, timeout=800, const="",
                 env=None, workers=None, heap="3g", soft=False):
        """Check that each trace is a behaviour of the specification satisfying
        the invariants.  A rejection is confirmed by a second run."""
        cfg = "SPECIFICATION TSpec\nINVARIANTS " + " ".join(invariants) + \
              "\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" + const
        from concurrent.futures import ThreadPoolExecutor

        files = [f for f in files if os.path.getsize(f) > 0]
        par = min(len(files), NCPU)
        w = workers or max(1, NCPU // max(1, par))

        def one(f):
            return self.tlc(module, cfg, env=dict(env or {}, TRACE=f), workers=w, timeout=timeout, heap=heap)

        self.classes()
        with ThreadPoolExecutor(par or 1) as ex:
            results = list(ex.map(one, files))
        ok = True
        for f, (rc, out) in zip(files, results):
            g, d = self.count(out)
            lines = open(f).read().splitlines()
            nscripts = sum(1 for x in lines if x.startswith('{"k":"new"'))
            self.events += len(lines)
            if rc == 0:
                self.traces += nscripts
                if len(self.samples) < 3 and len(lines) > 2:
                    self.samples.append(dict(what=what, trace_line=pretty(json.loads(lines[min(2, len(lines) - 1)]))))
                continue
            # 12: an invariant is violated; 75, 76: a recorded value is out of what the
            # specification can represent, an invariant has no value
            if rc not in (12, 75, 76):
                raise CheckError(f"TLC exit {rc} on {module} ({what})\n" + tail(out))
            # confirm
            rc2, out2 = self.tlc(module, cfg, env=dict(env or {}, TRACE=f), workers=1, timeout=timeout, heap=heap)
            if rc2 != rc:
                raise CheckError("violation not reproduced by a second run of TLC")
            if rc != 12:
                print(tail(out2), flush=True)
            inv = re.findall(r"Invariant (\w+) is violated", out2)
            ln = re.findall(r"^/\\ l = (\d+)", out2, re.M)
            n = int(ln[-1]) if ln else 0
            start = n
            while start > 1 and not lines[start - 1].startswith('{"k":"new"'):
                start -= 1
            bad = [json.loads(x) for x in lines[start - 1:n]]
            sid = bad[0].get("id") if bad else None
            self.violations.append(dict(
                property=self.prop, invariant=inv[-1] if inv else "?", what=what, line=n,
                trace_file_line=n, script_id=sid,
                script=(scripts[sid] if scripts is not None and sid is not None and sid < len(scripts) else None),
                event=pretty(bad[-1]) if bad else None,
                trace=[pretty(x) for x in bad[-6:]]))
            ok = False
        self.log(f"traces [{what}]: {len(files)} files validated" if ok else f"traces [{what}]: REJECTED")
        if not ok and not soft:
            raise Rejected()
        return ok

    # -- known findings
    def known_finding(self, key):
        """Print a listed finding (it must be in known_findings.json)."""
        for f in self.findings:
            if f["key"] == key and f["property"] == self.prop and f["status"] == "known":
                line = f"KNOWN-FINDING: property={self.prop} {f['what']}"
                if line not in self.known:
                    self.known.append(line)
                return True
        return False

    # -- end
    def finish(self):
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples[:5] or ["no trace"],
                   events_validated=self.events)
        cov.update(self.extra)
        if self.known:
            cov["known_findings"] = self.known
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        json.dump(ev, open(f"{VERIF}/evidence/{self.prop}.json", "w"), indent=1)
        for k in self.known:
            print(k)
        if self.violations:
            rp = f"{VERIF}/evidence/{self.prop}-replay.json"
            json.dump(self.violations, open(rp, "w"), indent=1)
            v = self.violations[0]
            print(f"rejected: invariant {v.get('invariant')} [{v.get('what')}]")
            print(json.dumps(v.get("event"))[:3000])
            print(f"VIOLATION property={self.prop} replay={rp}", flush=True)
            return 1
        print(f"OK property={self.prop} states={self.states} traces={self.traces} "
              f"events={self.events} wall={ev['wall_s']}s", flush=True)
        return 0

    def abort(self):
        """The check could not complete: violations already shown still count."""
        if self.violations:
            return self.finish()
        return 2

    def cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.scratch)
            return
        shutil.rmtree(self.scratch, ignore_errors=True)


def tail(s, n=3000):
    """The end of an output, from the first error reported by TLC."""
    i = s.find("\nError:")
    return s[i:i + n] if i >= 0 else s[-n:]


def version():
    """The VERSION macro of the Makefile."""
    try:
        m = re.search(r"^VERSION\s*[:?]?=\s*\"?([^\"\s]+)\"?", open(f"{REPO}/Makefile").read(), re.M)
        if m:
            return m.group(1)
    except OSError:
        pass
    return "0.0"


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise CheckError("command failed: " + " ".join(map(str, cmd))[:400] + "\n" + p.stdout[-3000:])
    return p.stdout

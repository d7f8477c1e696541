"""Runtime shared by all checks: TLC driver, trace writer, verdicts, evidence.

A check is a python module `cNN.py` with a function `run(ctx)`.  It uses
  ctx.model(...)     exhaustive TLC run of a design (must pass, else machinery error)
  ctx.generate(...)  TLC run that prints cases/histories (lines starting with @@CASE)
  ctx.validate(...)  TLC run of a trace specification over recorded events;
                     the specification returns a total verdict (@@BAD lines)
and finishes with ctx.finish().
"""
import fnmatch
import hashlib
import json
import math
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CAP = 2_000_000_000
UNIT = 1e-9


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ quantisation
def q(x, unit=UNIT):
    """Quantise a non-negative residual to an int that TLC can hold (nan/inf -> CAP)."""
    try:
        x = float(x)
    except Exception:
        return CAP
    if math.isnan(x) or math.isinf(x):
        return CAP
    v = math.ceil(abs(x) / unit - 1e-12)
    return int(min(v, CAP))


def qs(x, unit=UNIT):
    """Signed quantisation, rounding towards +inf (so an increase never hides)."""
    try:
        x = float(x)
    except Exception:
        return CAP
    if math.isnan(x) or math.isinf(x):
        return CAP
    v = math.ceil(x / unit - 1e-12)
    return int(max(-CAP, min(v, CAP)))


def rel(a, b):
    """Max-norm relative difference of two arrays; inf when shapes differ or nan appears."""
    import numpy as np

    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    d = np.max(np.abs(a - b))
    s = max(np.max(np.abs(a)), np.max(np.abs(b)))
    if not np.isfinite(d):
        return float("inf")
    return float(d / s) if s > 0 else 0.0


def digest(a):
    import numpy as np

    a = np.asarray(a)
    return hashlib.sha1(
        repr((a.shape, a.dtype.str)).encode() + np.ascontiguousarray(a).tobytes()
    ).hexdigest()[:16]


# ------------------------------------------------------------------ TLC
_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


_STUCK = re.compile(r"^(?:/\\ )?l = (\d+)", re.M)
_EVAL = re.compile(r"Overflow|overflow|evaluating|Evaluating|Attempted to|attempted to|not in the domain|TLC could not|The exception was")


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = _STATS.findall(out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.lines = {}
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"@@') and line.endswith('"'):
                line = json.loads(line)  # PrintT of a TLA+ string quotes it
            if line.startswith("@@"):
                tag, _, rest = line.partition(" ")
                self.lines.setdefault(tag[2:], []).append(rest)

    def tail(self):
        k = self.out.rfind("Error: The error")
        k = k if k >= 0 else max(0, self.out.find("Error:"))
        return self.out[k:][:4000]

    def ok(self):
        return "Model checking completed. No error has been found." in self.out or (
            self.rc == 0
        )


def run_tlc(spec, cfg, env=None, workers=1, heap="2g", timeout=600, extra=(), scratch=None):
    """Run TLC on SPEC/<spec>.tla with SPEC/<cfg>.cfg (or a cfg text) in a scratch metadir."""
    own = scratch is None
    scratch = scratch or tempfile.mkdtemp(prefix="verif_tlc_")
    meta = tempfile.mkdtemp(prefix="meta_", dir=scratch)
    if "\n" in cfg:
        cfgpath = os.path.join(meta, "run.cfg")
        with open(cfgpath, "w") as f:
            f.write(cfg)
    else:
        cfgpath = os.path.join(SPEC, cfg + ".cfg")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = [
        "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
        "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
        "-workers", str(workers), "-metadir", os.path.join(meta, "m"),
        "-config", cfgpath, "-deadlock", "-noGenerateSpecTE", "-fp", "0", *extra,
        os.path.join(SPEC, spec + ".tla"),
    ]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timed out on {spec}/{cfg[:40]}") from ex
    finally:
        if own:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(out, rc, time.time() - t)


# ------------------------------------------------------------------ parallel map
def _call(args):
    fn, item = args
    try:
        return ("ok", fn(item))
    except Exception:
        return ("err", traceback.format_exc())


def pmap(fn, items, procs=None):
    items = list(items)
    procs = procs or min(8, os.cpu_count() or 1)
    if len(items) <= 1 or procs == 1:
        out = [_call((fn, i)) for i in items]
    else:
        with mp.get_context("fork").Pool(procs) as pool:
            out = pool.map(_call, [(fn, i) for i in items],
                           chunksize=max(1, len(items) // (procs * 8)))
    res = []
    for k, v in out:
        if k == "err":
            raise MachineryError("worker failed:\n" + v)
        res.append(v)
    return res


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        self.states = self.transitions = self.traces = 0
        self.events = 0
        self.samples = []
        self.viol = []
        self.extra = {}
        self.assumptions = []
        self.runs = []

    @property
    def quick(self):
        return self.tier != "thorough"

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # -- design model checking: must succeed
    def model(self, spec, cfg, workers=4, **kw):
        r = run_tlc(spec, cfg, workers=workers, scratch=self.scratch, **kw)
        if not r.ok() or r.distinct == 0:
            raise MachineryError(f"design model {spec}/{cfg} failed:\n{r.tail()}")
        self.states += r.distinct
        self.transitions += r.generated
        self.runs.append({"spec": spec, "cfg": cfg.strip().split("\n")[0], "kind": "model",
                          "distinct": r.distinct, "generated": r.generated, "wall_s": round(r.wall, 2)})
        return r

    # -- case generation
    def generate(self, spec, cfg, env=None, tag="CASE", **kw):
        r = run_tlc(spec, cfg, env=env, workers=1, scratch=self.scratch, **kw)
        if not r.ok():
            raise MachineryError(f"generator {spec}/{cfg} failed:\n{r.tail()}")
        cases = [json.loads(s) for s in r.lines.get(tag, [])]
        if not cases:
            raise MachineryError(f"generator {spec}/{cfg} produced nothing:\n{r.tail()}")
        distinct = len({json.dumps({k: v for k, v in c.items() if k != "id"} if isinstance(c, dict) else c, sort_keys=True)
                        for c in cases})
        if distinct < 0.5 * len(cases):
            raise MachineryError(f"generator {spec}/{cfg} repeats itself: {distinct} different cases of {len(cases)}")
        self.states += r.distinct
        self.transitions += r.generated
        self.runs.append({"spec": spec, "cfg": cfg.strip().split("\n")[0], "kind": "generate", "distinct": distinct,
                          "cases": len(cases), "wall_s": round(r.wall, 2)})
        return cases

    # -- trace validation: total verdict
    def validate(self, spec, events, cfg=None, env=None, ntraces=None, chunk=4000, payloads=None, **kw):
        """Events: list of json-able dicts (first key 'ev').  The trace spec prints
        @@DONE <n> and one @@BAD {"i":..,"clause":..} per failing clause.
        A chunk never splits a trace: events with key 'start' == 1 may begin a chunk."""
        cfg = cfg or spec
        chunks, cur = [], []
        for e in events:
            if len(cur) >= chunk and e.get("start") == 1:
                chunks.append(cur)
                cur = []
            cur.append(e)
        if cur:
            chunks.append(cur)
        bads = []
        base = 0
        jobs = []
        for c in chunks:
            path = tempfile.mktemp(suffix=".ndjson", dir=self.scratch)
            with open(path, "w") as f:
                for e in c:
                    f.write(json.dumps(e) + "\n")
            ee = dict(env or {})
            ee["TRACE"] = path
            jobs.append((base, len(c), ee, path))
            base += len(c)
        import concurrent.futures as cf

        def go(j):
            return run_tlc(spec, cfg, env=j[2], workers=1, scratch=self.scratch, **kw)

        with cf.ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(go, jobs))
        todo = list(zip(jobs, rs))
        strange = 0
        while todo:
            (b, n, env_, path), r = todo.pop(0)
            done = r.lines.get("DONE", [])
            self.states += r.distinct
            self.transitions += r.generated
            for s in r.lines.get("BAD", []):
                d = json.loads(s)
                d["i"] = d["i"] - 1 + b
                bads.append(d)
            if not done or int(done[-1]) != n:
                # an observation the specification cannot even evaluate (a number that TLC cannot
                # hold, a value of the wrong kind) is not a behaviour of the specification
                at = _STUCK.findall(r.out)
                k = int(at[-1]) if at else 0
                if not (0 < k <= n and _EVAL.search(r.out)) or strange >= 12:
                    if strange:
                        continue
                    keep = os.path.join(EVID, f"{self.pid}.stuck.ndjson")
                    os.makedirs(EVID, exist_ok=True)
                    shutil.copy(path, keep)
                    raise MachineryError(f"trace spec {spec} gave no verdict (want {n}):\n{r.tail()}")
                strange += 1
                bads = [d for d in bads if d["i"] != b + k - 1]
                bads.append({"i": b + k - 1, "clause": "outside-the-specification", "why": r.tail()[:400]})
                rest = open(path).read().splitlines()[k:]
                while rest and json.loads(rest[0]).get("start") != 1:
                    rest, k = rest[1:], k + 1
                if rest:
                    with open(path, "w") as f:
                        f.write("\n".join(rest) + "\n")
                    j = (b + k, len(rest), env_, path)
                    todo.insert(0, (j, go(j)))
                    continue
            os.unlink(path)
        self.events += len(events)
        nt = ntraces if ntraces is not None else sum(1 for e in events if e.get("start") == 1)
        self.traces += nt
        self.runs.append({"spec": spec, "kind": "trace", "events": len(events), "traces": nt,
                          "bad": len(bads), "wall_s": round(sum(r.wall for r in rs), 2)})
        for d in bads:
            e = events[d["i"]]
            key = f"{e.get('key', '?')}#{d['clause']}"
            self.violation(key, {"clause": d["clause"], "event": e,
                                 "detail": (payloads or {}).get(e.get("key"))})
        return bads

    def violation(self, key, payload):
        self.viol.append((key, payload))

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def finish(self):
        known = load_known(self.pid)
        new, hit = [], {}
        for key, payload in self.viol:
            for kid, pat, text in known:
                if fnmatch.fnmatchcase(key, pat):
                    hit.setdefault(kid, text)
                    break
            else:
                new.append((key, payload))
        os.makedirs(EVID, exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events": self.events,
            "runs": self.runs,
            "samples": self.samples or ["none"],
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        # known findings that must be reproducible on the tree are reported when seen
        for kid in sorted(hit):
            print(f"KNOWN-FINDING: property={self.pid} {hit[kid]}")
        if new:
            rep = os.path.join(EVID, f"{self.pid}.replay.json")
            with open(rep, "w") as f:
                json.dump([{"key": k, **(p if isinstance(p, dict) else {"p": p})} for k, p in new[:200]],
                          f, indent=1, default=str)
            seen = set()
            for key, payload in new:
                fam = key.split("#")[-1]
                if fam in seen:
                    continue
                seen.add(fam)
                print(f"  fails: {key}")
            print(f"VIOLATION property={self.pid} replay={rep}")
            print(f"  ({len(new)} failing clauses; wall {ev['wall_s']}s)")
            return 1
        print(f"OK property={self.pid} states={self.states} traces={self.traces} events={self.events} "
              f"wall={ev['wall_s']}s")
        return 0


def load_known(pid):
    """known: property=C02 id=<id> match=<glob on key> :: <what fails>"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) id=(\S+) match=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, REPO)
    ctx = Ctx(pid, tier, seed)
    try:
        import importlib

        try:
            mod = importlib.import_module(pid.lower())
        except Exception:
            # the library itself does not import any more: that breaks every property
            tb = traceback.format_exc()
            if "/ssspy/" in tb.splitlines()[-4] or "ssspy" in tb.splitlines()[-1]:
                ctx.violation("import#library-imports", {"traceback": tb})
                return ctx.finish()
            raise
        mod.run(ctx)
        return ctx.finish()
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main(sys.argv))

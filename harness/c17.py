"""C17: determinism, isolation, passive observers, over interleavings generated from IterativeMethod.tla.

References are computed in freshly forked processes that never ran anything else; the
interleaved histories run several live objects, with nested calls from callbacks."""
import multiprocessing as mp
import random
import traceback

import numpy as np

from iterlib import Orbit, Replayer, call_kwargs, catalogue, data_for, has_loss, loss_same, own_fault, plain_kwargs, rel, same, snap, uses_output_state
from rt import MachineryError

TOL = 1e-11


def fresh(fn, items, procs=8):
    """Every item in its own process, forked from this (clean) one."""
    with mp.get_context("fork").Pool(procs, maxtasksperchild=1) as pool:
        out = pool.map(_guard, [(fn, i) for i in items], chunksize=1)
    for k, v in out:
        if k == "err":
            raise MachineryError("worker failed:\n" + v)
    return [v for _, v in out]


def _guard(a):
    try:
        return "ok", a[0](a[1])
    except Exception:
        return "err", traceback.format_exc()


def genstate(m):
    r = getattr(m, "rng", None)
    return None if r is None else repr(r.bit_generator.state)


class Ref:
    """What one object does when it is alone and unobserved."""

    def __init__(self, name, seed, dseed, n_ch, N, full):
        self.e = e = catalogue()[name]
        x = data_for(e, dseed, n_ch=n_ch)
        over = plain_kwargs(e)
        self.states, self.losses, self.outputs, self.rng = [], [], [], []
        for k in range(N + 1):
            m = e.build(seed, record_loss=False, **over)
            out = m(x.copy(), n_iter=k, **call_kwargs(e, x))
            self.states.append(snap(m))
            if full:
                m = e.build(seed, record_loss=False)
                out = m(x.copy(), n_iter=k, **call_kwargs(e, x))
            self.outputs.append(np.array(out))
            self.rng.append(genstate(m))
            self.losses.append(None)
            if has_loss(e):
                m = e.build(seed, record_loss=True, **over)
                m(x.copy(), n_iter=k, **call_kwargs(e, x))
                self.losses[-1] = list(m.loss)[-1]
        del self.e

    def match(self, s):
        return [k for k, t in enumerate(self.states) if same(s, t, TOL)]

    def match_loss(self, v):
        return [k for k, t in enumerate(self.losses) if t is not None and loss_same(v, t, TOL)]


def reference(a):
    try:
        return Ref(*a)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return repr(ex)[:200]


def environment():
    s = np.random.get_state()
    return {
        "global-numpy-random-state": (s[0], tuple(s[1]), s[2], s[3], s[4]),
        "global-python-random-state": random.getstate(),
        "numpy-error-settings": tuple(sorted(np.geterr().items())),
        "numpy-error-callback": np.geterrcall(),
        "numpy-print-options": repr(np.get_printoptions()),
    }


class Live(Replayer):
    """Replayer whose callbacks also use the read-only API of the object they observe."""

    def __init__(self, *a, **k):
        self.env = environment()
        self.peek = False
        super().__init__(*a, **k)

    def emit(self, **k):
        if k.get("ev") in ("begin", "cb", "ret"):
            now = environment()
            k["env"] = sorted(n for n in now if now[n] != self.env[n])
            self.env = now
            o = k["o"]
            if k["ev"] == "ret":
                k["rng"] = [i for i, g in enumerate(self.orbits[o].rng) if g == genstate(self.objs[o])]
        super().emit(**k)

    def callback(self, o, j):
        inner = super().callback(o, j)

        def cb(method):
            if self.peek:
                try:
                    if has_loss(self.entries[o]):
                        method.compute_loss()
                    repr(method)
                    if getattr(method, "demix_filter", None) is not None:
                        method.separate(method.input, demix_filter=method.demix_filter)
                except Exception as ex:  # noqa: BLE001
                    if own_fault(ex):
                        raise
                    self.emit(ev="exc", o=o, what="peek: " + repr(ex)[:200])
            inner(method)

        return cb


def trace(a):
    job, refs = a
    (names, seeds, dseeds, n_ch, case, full, peek, idx) = job
    key = "+".join(names) + f"/s{seeds}/d{dseeds}/{'full' if full else 'plain'}{'/peek' if peek else ''}/ch{n_ch}/" + ",".join(
        f"{h['o']}@{h['d']}.{h['at']}:{h['n']}{'i' if h['init'] else '-'}" for h in case["hist"])
    cfg = {i + 1: dict(c) for i, c in enumerate(case["cfg"])}
    ents = {i + 1: catalogue()[n] for i, n in enumerate(names)}
    for r in refs:
        if isinstance(r, str):
            return [dict(ev="new", start=1, quiet=1, cfg=list(cfg.values()), key=key),
                    dict(ev="exc", o=1, what=r, key=key)]
    for o, e in ents.items():
        if not has_loss(e):
            cfg[o]["rec"] = 0
    xs = {o: data_for(e, dseeds[o - 1], n_ch=n_ch) for o, e in ents.items()}
    objs = {}
    # an application that configured its own global state
    np.random.seed(12345 + idx)
    random.seed(999 + idx)
    if idx % 2:
        np.seterr(divide="warn", over="warn", invalid="warn", under="ignore")
    r = Live(objs, {i + 1: x for i, x in enumerate(refs)}, xs, cfg, key,
             first_kwargs={o: call_kwargs(e, xs[o]) for o, e in ents.items()})
    r.entries = ents
    r.peek = peek
    r.noloss = any("GaussIVA" in n for n in names)
    # another object is created and run first in some histories
    if idx % 3 == 0:
        e = ents[1]
        e.build(77)(data_for(e, 55, n_ch=n_ch), n_iter=1, **call_kwargs(e, xs[1]))
    for o, e in ents.items():
        cbs = [r.callback(o, j + 1) for j in range(cfg[o]["ncb"])]
        over = {} if full else plain_kwargs(e)
        objs[o] = e.build(seeds[o - 1], callbacks=cbs or None, record_loss=bool(cfg[o]["rec"]), **over)
    orig_emit = r.emit

    def emit(**k):
        if k.get("ev") == "ret":
            o = k["o"]
            done = [i for i, y in enumerate(refs[o - 1].outputs) if rel(y, r.outputs[o]) <= TOL]
            k["pos"] = done if full else [p for p in k["pos"] if p in done]
            if full:
                k.pop("losses", None)
        orig_emit(**k)

    r.emit = emit
    return r.run(case["hist"])


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("IterativeMethod", "IterativeMethod")
    cases = ctx.generate("IterGen", "IterGen")
    if not ctx.quick:
        cases += ctx.generate("IterGen", "IterGen3", timeout=900)

    def most(c):
        n = {}
        for h in c["hist"]:
            n[h["o"]] = n.get(h["o"], 0) + 1
        return max(n.values())

    # two objects at work, the nested ones first: these are the rare schedules
    two = [c for c in cases if len({h["o"] for h in c["hist"]}) == 2 and sum(h["n"] for h in c["hist"]) > 0
           and all(h["init"] for h in c["hist"][:1])]
    once = [c for c in two if most(c) == 1]
    nested = [c for c in once if any(h["d"] > 0 for h in c["hist"]) and all(h["n"] for h in c["hist"])]
    flat = [c for c in once if all(h["d"] == 0 for h in c["hist"])]
    again = [c for c in two if most(c) > 1]
    for p in (nested, flat, again):
        rnd.shuffle(p)
    ctx.extra["schedules"] = {"nested": len(nested), "sequential": len(flat), "repeated": len(again)}
    names = sorted(n for n in catalogue())
    byfam = {}
    for n in names:
        byfam.setdefault(catalogue()[n].kind, []).append(n)
    jobs = []
    per = 2 if ctx.quick else 10
    idx = 0
    for n in names:
        e = catalogue()[n]
        for k in range(per):
            kind = (idx + k) % 4
            others = byfam[e.kind]
            partner = n if kind in (0, 3) else others[(idx * 31 + 7 * k) % len(others)]
            pool = nested if idx % 3 else (flat if not again or idx % 2 else again)
            if any(uses_output_state(catalogue()[m]) or "CACGMM" in m for m in (n, partner)) and pool is again:
                pool = nested
            case = pool[(idx * 5) % len(pool)]
            full = most(case) == 1 and idx % 2 == 0
            # alike (same data and seed) or different data in each object
            seeds = (ctx.seed, ctx.seed) if kind == 3 else (ctx.seed, ctx.seed + 1)
            n_ch = 3 if (e.kind != "real" and idx % 5 == 0) else 2
            jobs.append(((n, partner), seeds, seeds, n_ch, case, full, idx % 2 == 1 or k == 1, idx))
            idx += 1
    refkeys = []
    for j in jobs:
        for o in (0, 1):
            N = sum(h["n"] for h in j[4]["hist"] if h["o"] == o + 1)
            refkeys.append((j[0][o], j[1][o], j[2][o], j[3], N, j[5]))
    uniq = sorted(set(refkeys))
    got = dict(zip(uniq, fresh(reference, uniq)))
    evs = []
    for t in fresh(trace, [(j, (got[refkeys[2 * i]], got[refkeys[2 * i + 1]])) for i, j in enumerate(jobs)]):
        evs += t
    ctx.extra["methods"] = len(names)
    ctx.extra["isolated_reference_processes"] = len(uniq)
    ctx.sample({"objects": jobs[0][0], "schedule": jobs[0][4]})
    ctx.sample({"objects": jobs[-1][0], "schedule": jobs[-1][4]})
    ctx.validate("IterTrace", evs)
    ctx.assumptions += ["numbers compared to 1e-11 relative with runs alone in a fresh process; generator and global states compared exactly"]

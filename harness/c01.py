"""C01: iteration protocol, over histories generated from IterativeMethod.tla."""
import random

import numpy as np

from iterlib import Orbit, Replayer, call_kwargs, catalogue, data_for, has_loss, plain_kwargs, uses_output_state
from rt import pmap

from ssspy.bss.base import IterativeMethodBase


# ---------------------------------------------------------------- toy objects: every step visible
class ToyOrbit:
    def match(self, s):
        return [s]

    def match_loss(self, v):
        return [int(v) - 1000]


class Toy(IterativeMethodBase):
    def __init__(self, hooks, **kw):
        self.hooks = hooks
        self.x = 0
        super().__init__(**kw)

    def __call__(self, n_iter=100, initial_call=True):
        return super().__call__(n_iter=n_iter, initial_call=initial_call)

    def update_once(self):
        self.x += 1
        self.hooks.emit(ev="update", o=self.oid, pos=[self.x])

    def compute_loss(self):
        self.hooks.emit(ev="loss", o=self.oid, pos=[self.x])
        return 1000.0 + self.x


class ToyReplayer(Replayer):
    def view(self, o):
        return [self.objs[o].x]


def toy_trace(args):
    idx, case = args
    cfg = {i + 1: c for i, c in enumerate(case["cfg"])}
    objs = {}
    r = ToyReplayer(objs, {}, {}, cfg, f"toy/{idx}", quiet=False)
    r.orbits = {o: ToyOrbit() for o in cfg}
    for o, c in cfg.items():
        cbs = [r.callback(o, j + 1) for j in range(c["ncb"])]
        if not cbs:
            cbs = None
        elif len(cbs) == 1 and idx % 2:
            cbs = cbs[0]
        elif idx % 3 == 0:
            cbs = tuple(cbs) if isinstance(cbs, list) and False else cbs
        m = Toy(r, callbacks=cbs, record_loss=bool(c["rec"]))
        m.oid = o
        objs[o] = m
    return r.run(case["hist"])


# ---------------------------------------------------------------- real methods: public observations only
def real_trace(args):
    name, case, idx, seed = args
    e = catalogue()[name]
    n_ch = 3 if (seed + idx) % 3 == 0 and e.kind != "real" else 2
    x = data_for(e, seed, n_ch=n_ch)
    N = sum(h["n"] for h in case["hist"])
    try:
        orb = Orbit(e, x, seed, N)
    except Exception as ex:  # noqa: BLE001
        return [dict(ev="new", start=1, quiet=1, cfg=[case["cfg"][0]], key=f"{name}/orbit"),
                dict(ev="exc", o=1, what=repr(ex)[:200], key=f"{name}/orbit")]
    c = dict(case["cfg"][0])
    if not has_loss(e):
        c["rec"] = 0
    objs = {}
    key = f"{name}/ch{n_ch}/rec{c['rec']}cb{c['ncb']}/" + ",".join(
        f"{h['n']}{'i' if h['init'] else '-'}" for h in case["hist"])
    before = None
    if e.cls.__name__ == "CACGMM":
        def before(o, m):
            m.rng = np.random.default_rng(1000 + seed)
            return {"reset": 1}
    r = Replayer(objs, {1: orb}, {1: x}, {1: c}, key, first_kwargs={1: call_kwargs(e, x)}, between=before)
    cbs = [r.callback(1, j + 1) for j in range(c["ncb"])]
    cbs = None if not cbs else (cbs[0] if len(cbs) == 1 and idx % 2 else cbs)
    # the variances of the Gaussian IVA variants restart at one in every call: the value of
    # a repeated initial evaluation is then not that of the orbit state
    r.noloss = "GaussIVA" in e.cls.__name__ and any(h["init"] for h in case["hist"][1:])
    objs[1] = e.build(seed, callbacks=cbs, record_loss=bool(c["rec"]), **plain_kwargs(e))
    ev = r.run(case["hist"])
    # the separated signals returned at the end belong to the last state
    if ev[-1]["ev"] == "ret" and e.cls.__name__ != "CACGMM":
        from rt import rel
        k = [p for p in ev[-1]["pos"] if rel(orb.outputs[p], r.outputs[1]) <= 1e-7]
        ev[-1]["pos"] = k
    return ev


def default_trace(args):
    """Defaults: n_iter omitted must mean 100 updates (cheap methods only), initial call on."""
    name, seed = args
    e = catalogue()[name]
    x = data_for(e, seed, n_ch=2, n_bins=2, n_frames=16)
    n = []
    m = e.build(seed, callbacks=lambda m: n.append(None if m.loss is None else len(m.loss)), record_loss=has_loss(e))
    try:
        m(x, **call_kwargs(e, x))
    except Exception as ex:  # noqa: BLE001
        if isinstance(ex, np.linalg.LinAlgError):
            return []
        return [dict(ev="new", start=1, quiet=1, cfg=[dict(rec=0, ncb=1)], key=f"{name}/default"),
                dict(ev="exc", o=1, what=repr(ex)[:200], key=f"{name}/default")]
    key = f"{name}/default"
    ev = [dict(ev="new", start=1, quiet=1, cfg=[dict(rec=int(has_loss(e)), ncb=1)], key=key),
          dict(ev="begin", o=1, n=100, init=1, key=key)]
    for k, nl in enumerate(n):
        ev.append(dict(ev="cb", o=1, j=1, pos=[k], nloss=-1 if nl is None else nl, key=key))
        ev.append(dict(ev="endcb", o=1, key=key))
    ev.append(dict(ev="ret", o=1, pos=[len(n) - 1], nloss=-1 if m.loss is None else len(m.loss), key=key))
    return ev


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("IterativeMethod", "IterativeMethod")
    cases = ctx.generate("IterGen", "IterGen")
    if not ctx.quick:
        cases += ctx.generate("IterGen", "IterGen3", timeout=900)
    toy = rnd.sample(cases, min(len(cases), 900 if ctx.quick else 9000))
    evs = []
    for t in pmap(toy_trace, list(enumerate(toy))):
        evs += t
    # programs of one object for the real methods: project on object 1, top level only
    single, seenk = [], set()
    for c in cases:
        h = [dict(x) for x in c["hist"] if x["d"] == 0 and x["o"] == 1]
        if not h or len(h) != len(c["hist"]):
            continue
        k = repr((h, c["cfg"][0]))
        if k not in seenk:
            seenk.add(k)
            single.append({"hist": h, "cfg": c["cfg"][:1]})
    singles1 = []
    for c in single:
        h = [c["hist"][0]]
        k = repr((h, c["cfg"][0]))
        if k not in seenk:
            seenk.add(k)
            singles1.append({"hist": h, "cfg": c["cfg"]})
    rnd.shuffle(single)
    rnd.shuffle(singles1)
    names = sorted(catalogue())
    per = 4 if ctx.quick else 24
    jobs = []
    i = 0
    for name in names:
        pool = singles1 if uses_output_state(catalogue()[name]) else single + singles1
        for k in range(per):
            jobs.append((name, pool[i % len(pool)], i, ctx.seed + k))
            i += 7 if len(pool) % 7 else 5
    ctx.extra["methods"] = len(names)
    ctx.extra["histories_generated"] = len(cases)
    for t in pmap(real_trace, jobs):
        evs += t
    dn = [n for n in names if catalogue()[n].cls.__name__ not in ("GaussIPSDTA", "TIPSDTA")]
    byc = {}
    for n in dn:
        byc.setdefault(catalogue()[n].cls.__name__, n)
    for t in pmap(default_trace, [(n, ctx.seed) for n in byc.values()]):
        evs += t
    ctx.sample({"program": jobs[0][1], "method": jobs[0][0]})
    ctx.sample({"trace": [e for e in evs if e["key"] == evs[-1]["key"]][:6]})
    ctx.validate("IterTrace", evs)
    ctx.assumptions += ["loss and state identity up to 1e-8 relative", "a toy subclass exposes every step; real methods are observed through callbacks and public attributes"]

"""C03: no array of the caller is modified, results do not depend on memory layout."""
import inspect
import random
import warnings

import numpy as np

import funcs
from iterlib import call_kwargs, catalogue, data_for, own_fault, plain_kwargs, saved_params, uses_output_state
from rt import digest, pmap, q, rel

LAYS = ["c", "f", "t", "s", "n", "ro", "ros", "sub"]


def lay_out(a, kind):
    """(view with the values of a, base buffer) in the given memory layout."""
    a = np.asarray(a)
    if kind in ("c", "ro"):
        b = np.array(a, order="C")
        v = b
    elif kind == "f":
        b = v = np.asfortranarray(a.copy())
    elif kind == "t":
        b = np.ascontiguousarray(a.transpose(tuple(range(a.ndim))[::-1])).copy()
        v = b.transpose(tuple(range(a.ndim))[::-1])
    elif kind in ("s", "ros"):
        b = np.full(tuple(2 * s + 1 for s in a.shape), 7, a.dtype)
        sl = tuple(slice(1, None, 2) for _ in a.shape)
        b[sl] = a
        v = b[sl]
    elif kind == "n":
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        b = a[sl].copy()
        v = b[sl]
    elif kind == "sub":
        b = np.full(tuple(s + 3 for s in a.shape), 7, a.dtype)
        sl = tuple(slice(1, s + 1) for s in a.shape)
        b[sl] = a
        v = b[sl]
    else:
        raise ValueError(kind)
    if kind in ("ro", "ros"):
        b.setflags(write=False)
        v = v.view()
        v.setflags(write=False)
    return v, b


class Held:
    """Everything the caller holds: views, their base buffers and the expected contents."""

    def __init__(self):
        self.items = []

    def hold(self, view, base):
        self.items.append([view, base, digest(view), digest(base)])
        return len(self.items)

    def changes(self):
        ch, around = [], 0
        for i, it in enumerate(self.items):
            dv, db = digest(it[0]), digest(it[1])
            if dv != it[2]:
                ch.append(i + 1)
            elif db != it[3]:
                around = 1
            it[2], it[3] = dv, db
        return ch, around


# ------------------------------------------------------------------ functions
def function_event(args):
    name, lays, seed = args
    f, build, writes = funcs.table()[name]
    key = f"fn/{name}/{'-'.join(lays)}/s{seed}"
    rng = np.random.default_rng([seed, 99])
    a, kw = build(rng)
    lays = list(lays)
    for i in writes:
        if lays[i % len(lays)] in ("ro", "ros"):
            lays[i % len(lays)] = "s"
    held = Held()
    views = []
    for i, x in enumerate(a):
        v, b = lay_out(x, lays[i % len(lays)])
        held.hold(v, b)
        views.append(v)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ref = funcs.results(f(*[x.copy() for x in a], **kw))
            out = funcs.results(f(*views, **kw))
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev="exc", start=1, key=key, what=repr(ex)[:200])]
    ch, around = held.changes()
    same = max((rel(o, r) for o, r in zip(out, ref)), default=0) if len(out) == len(ref) else float("inf")
    inplace = all(np.array_equal(views[w], out[k]) for k, w in enumerate(writes))
    if not writes and name != "identity":
        inplace = inplace and not any(np.shares_memory(o, v) for o in out for v in views)
    return [dict(ev="op", start=1, key=key, tracked=len(a), results=[], changed=ch, writes=[w + 1 for w in writes],
                 around=around, inplace=int(inplace), same=q(same), returned=0)]


# ------------------------------------------------------------------ methods
class Degenerate(Exception):
    """The run on the caller's plain private copies fails as well: nothing to compare."""


def reference(f):
    try:
        return f()
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        raise Degenerate from ex


def params_of(e, x, seed):
    m = e.build(seed, record_loss=False, **plain_kwargs(e))
    m(x.copy(), n_iter=1, **call_kwargs(e, x))
    return saved_params(m)


def spread(kw, lay):
    """Parameters in the given layout: (kwargs, list of (view, base))."""
    out, pieces = {}, []
    for k, v in kw.items():
        if isinstance(v, (tuple, list)):
            vs = [lay_out(a, lay) for a in v]
            pieces += vs
            out[k] = type(v)(p[0] for p in vs)
        else:
            p = lay_out(v, lay)
            pieces.append(p)
            out[k] = p[0]
    return out, pieces


def method_events(args):
    name, case, seed, vi = args
    variant = VARIANTS[vi]
    e = catalogue()[name]
    n_ch = variant["n_ch"]
    key = f"hist/{name}/c{n_ch}/{variant['tag']}/case{case['id']}/s{seed}"
    held = Held()
    values = {1: data_for(e, seed, n_ch=n_ch, n_frames=20), 2: data_for(e, seed + 50, n_ch=n_ch, n_frames=20)}
    views = {}
    over = dict(variant["over"](e))
    objs, refs, evs, res, bases = {}, {}, [], set(), {}
    base = None
    try:
        for k in (1, 2):
            lay = next((o["lay"] for o in case["ops"] if o["x"] == k), "c")
            v, b = lay_out(values[k], lay)
            held.hold(v, b)
            views[k] = v
            bases[k] = b
        for k, op in enumerate(case["ops"], 1):
            o, src = op["o"], op["x"]
            kind = op["op"]
            if src not in views:
                src = 1
            if kind in ("again", "separate", "loss") and o not in objs:
                kind = "call"
            if kind == "again" and uses_output_state(e):
                kind = "call"
            pars, ref_pars, new = {}, {}, []
            if kind in ("call", "again"):
                if kind == "call":
                    objs[o] = e.build(seed + o, **over)
                    refs[o] = e.build(seed + o, **over)
                    if op["par"]:
                        base = base or params_of(e, values[1], seed)
                        ref_pars = base
                        pars, new = spread(base, op["plays"])
                    else:
                        ref_pars = call_kwargs(e, values[1])
                        pars, new = spread(ref_pars, op["plays"])
                for v, b in new:
                    held.hold(v, b)
                tracked = len(held.items)
                want = reference(lambda: refs[o](values[src].copy(), n_iter=op["n"],
                                                 **{kk: cp(vv) for kk, vv in ref_pars.items()}))
                out = objs[o](views[src], n_iter=op["n"], **pars)
            elif kind == "separate":
                m = objs[o]
                tracked = len(held.items)
                if not takes_filter(m):
                    if np.shape(views[src]) != np.shape(m.input):
                        src = 1
                    tracked = len(held.items)
                    want = reference(lambda: refs[o].separate(values[src].copy()))
                    out = m.separate(views[src])
                else:
                    W = getattr(m, "demix_filter", None)
                    if W is None:
                        continue
                    W = np.array(W)
                    Wv, Wb = lay_out(W, op["plays"])
                    held.hold(Wv, Wb)
                    tracked = len(held.items)
                    want = reference(lambda: refs[o].separate(values[src].copy(), demix_filter=W.copy()))
                    out = m.separate(views[src], demix_filter=Wv)
            else:
                m = objs[o]
                tracked = len(held.items)
                if not hasattr(m, "compute_loss") or not m.record_loss:
                    continue
                want = np.array(reference(lambda: refs[o].compute_loss()))
                out = np.array(m.compute_loss())
            ch, around = held.changes()
            same = 0 if np.array_equal(out, want, equal_nan=True) else rel(out, want)
            ev = dict(ev="op", start=1 if not evs else 0, key=f"{key}/op{k}:{kind}", tracked=tracked, results=sorted(res),
                      changed=ch, writes=[], around=around, inplace=1, same=q(same), returned=0)
            views[10 + k] = out
            values[10 + k] = np.array(want)
            if kind in ("call", "again", "separate"):
                held.hold(out, out if out.base is None else out)
                res.add(len(held.items))
                ev["returned"] = 1
            else:
                views.pop(10 + k)
                values.pop(10 + k)
            evs.append(ev)
    except Degenerate:
        pass
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        evs.append(dict(ev="exc", start=1 if not evs else 0, key=f"{key}/op:{kind}", what=repr(ex)[:300]))
    if evs and evs[-1]["ev"] == "op":
        was = {o: fields(m) for o, m in objs.items()}
        for k in (1, 2):
            b = bases[k]
            b.setflags(write=True)
            b[...] = 3 * b + 1
        moved = sorted({f for o, m in objs.items() for f, v in fields(m).items() if was[o].get(f) != v})
        evs.append(dict(ev="late", start=0, key=f"{key}/late", moved=moved))
    held_before = None
    for ev in evs:
        if ev["ev"] != "op":
            continue
        if held_before is not None:
            # newly handed-over arrays since the last operation
            ev["handed"] = ev["tracked"] - held_before
        else:
            ev["handed"] = ev["tracked"]
        held_before = ev["tracked"] + ev["returned"]
    return evs


def fields(m):
    """digest of every array attribute of an object"""
    out = {}
    for k, v in vars(m).items():
        for i, a in enumerate(v if isinstance(v, (tuple, list)) else [v]):
            if isinstance(a, np.ndarray):
                out[f"{k}.{i}"] = digest(a)
    return out


def takes_filter(m):
    return "demix_filter" in inspect.signature(m.separate).parameters


def cp(v):
    return type(v)(np.array(a) for a in v) if isinstance(v, (tuple, list)) else np.array(v)


VARIANTS = [
    dict(tag="plain", n_ch=2, over=lambda e: dict(plain_kwargs(e))),
    dict(tag="default", n_ch=2, over=lambda e: {}),
    dict(tag="mdp3", n_ch=3, over=lambda e: {"scale_restoration": "minimal_distortion_principle"}
         if "scale_restoration" in plain_kwargs(e) else {}),
]


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("Ownership", "Ownership")
    cases = ctx.generate("OwnGen", "OwnGen" if ctx.quick else "OwnGenBig", extra=("-seed", str(ctx.seed)))
    fjobs = []
    for name in funcs.table():
        combos = [(a,) for a in LAYS]
        combos += [tuple(rnd.choice(LAYS) for _ in range(3)) for _ in range(4 if ctx.quick else 40)]
        fjobs += [(name, c, ctx.seed + i) for i, c in enumerate(combos)]
    evs = []
    for t in pmap(function_event, fjobs):
        evs += t
    jobs = []
    i = 0
    for name in sorted(catalogue()):
        for k in range(9 if ctx.quick else 60):
            jobs.append((name, cases[i % len(cases)], ctx.seed + k, i % 3))
            i += 1
    for t in pmap(method_events, jobs):
        evs += t
    ctx.extra.update(functions=len(funcs.table()), function_runs=len(fjobs), methods=len(catalogue()), histories=len(jobs))
    ctx.sample(cases[0])
    ctx.sample(evs[-1])
    ctx.validate("OwnTrace", evs)
    ctx.assumptions += ["results in different layouts are compared to 1e-7 relative (summation order)"]

"""C22: the flooring function given is the one that is applied, everywhere, and the only one."""
import copy
import inspect
import random
import warnings

import numpy as np

import funcs
from iterlib import call_kwargs, data_for, own_fault, plain_kwargs
from rt import pmap, q, rel
from runs import wide
from ssspy.bss import _flooring as legacy
from ssspy.special import flooring as fl

SEEN = set()


def make(tag):
    def flooring(x):
        SEEN.add(tag)
        return x + 0.05
    return flooring


SINGULAR = (np.linalg.LinAlgError, ArithmeticError, ValueError)     # what dividing by zero leads to
OWN, OTHER = make("own"), make("other")


def _max(input, eps=1e-10):
    _vp_seen.add("lib")         # noqa: F821
    return _vp_np.maximum(input, eps)         # noqa: F821


def _add(input, eps=1e-10):
    _vp_seen.add("lib")         # noqa: F821
    return input + eps


class Listening:
    """the library's own flooring functions report that they are applied"""

    def __enter__(self):
        self.held = []
        for mod in (fl, legacy):
            for name, new in (("max_flooring", _max), ("add_flooring", _add)):
                f = getattr(mod, name, None)
                if inspect.isfunction(f) and not f.__code__.co_freevars and f not in [h[0] for h in self.held]:
                    self.held.append((f, f.__code__))
                    f.__globals__["_vp_seen"], f.__globals__["_vp_np"] = SEEN, np
                    f.__code__ = new.__code__
        SEEN.clear()

    def __exit__(self, *a):
        for f, c in self.held:
            f.__code__ = c
            f.__globals__.pop("_vp_seen", None)


def floors():
    return {"own": OWN, "other": OTHER, "none": None}


def given(kind):
    """keyword arguments of a constructor or a function"""
    return {} if kind in ("lib", "self") else {"flooring_fn": floors()[kind]}


def state(m):
    out = {}
    for k, v in vars(m).items():
        for i, a in enumerate(v if isinstance(v, (tuple, list)) else [v]):
            if isinstance(a, np.ndarray):
                out[f"{k}.{i}"] = np.array(a)
    return out


def deviation(a, b):
    if set(a) != set(b):
        return float("inf")
    return max((0.0 if np.array_equal(a[p], b[p], equal_nan=True) else rel(a[p], b[p]) for p in a), default=0.0)


def updates(m):
    """public updates that take a flooring function and nothing else"""
    out = []
    for k in dir(m):
        f = getattr(m, k, None)
        if k.startswith("_") or not inspect.ismethod(f):
            continue
        pars = inspect.signature(f).parameters
        if "flooring_fn" in pars and all(p.default is not p.empty or p.kind in (2, 4) for p in pars.values()):
            out.append(k)
    return out


def class_events(args):
    name, cases, shape, seed = args
    e = wide()[name]
    cls = e.cls.__name__
    evs = []
    x = data_for(e, seed, **shape)
    rnd = random.Random(f"{name}/{seed}")
    plain = dict(plain_kwargs(e)) if rnd.random() < 0.5 else {}

    def started(own, n):
        m = e.build(seed, **dict(plain, **given(own)))
        m(x.copy(), n_iter=n, **call_kwargs(e, x))
        return m

    for c in cases:
        own, arg = c["own"], c["arg"]
        key = f"{c['kind']}/{name}/own={own}/arg={arg}/c{shape['n_ch']}/{'plain' if plain else 'default'}/s{seed}"
        base = dict(ev="use", start=1, kind=c["kind"], cls=cls, own=own, arg=arg, same=0)
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                if c["kind"] == "run":
                    with Listening():
                        started(own, 2)
                        evs.append(dict(base, key=key, used=sorted(SEEN)))
                    continue
                m0 = started("own", 1)
            except Exception as ex:  # noqa: BLE001
                if own_fault(ex):
                    raise
                # without flooring a run may legitimately divide by zero
                evs.append(dict(ev="skip" if own == "none" and isinstance(ex, SINGULAR) else "exc", start=1, key=key, what=repr(ex)[:200]))
                continue
            held = {"own": OWN, "none": fl.identity, "lib": type(m0)(**dict(required(e), **plain)).flooring_fn}
            for k in updates(m0):
                a, b = copy.deepcopy(m0), copy.deepcopy(m0)
                # the reference holds the flooring itself; both start from the same state
                a.flooring_fn = {"self": held[own], "none": fl.identity, "other": OTHER}[arg]
                b.flooring_fn = held[own]
                try:
                    getattr(a, k)()
                except Exception:  # noqa: BLE001
                    continue                       # not an update of this configuration
                try:
                    with Listening():
                        getattr(b, k)(**({"flooring_fn": "self"} if arg == "self" else given(arg)))
                        got = sorted(SEEN)
                except Exception as ex:  # noqa: BLE001
                    if own_fault(ex):
                        raise
                    evs.append(dict(ev="exc", start=1, key=f"{key}/{k}", what=repr(ex)[:200]))
                    continue
                evs.append(dict(base, key=f"{key}/{k}", used=got, same=q(deviation(state(a), state(b)))))
    return evs


def required(e):
    """constructor arguments of the configuration"""
    return dict(e.kwargs)


def function_events(args):
    name, cases, seed = args
    f, build, _ = funcs.table()[name]
    evs = []
    if not takes(name, f):
        return []
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        a, kw = build(np.random.default_rng(seed))
        kw = {k: v for k, v in kw.items() if k != "flooring_fn"}
        for c in cases:
            key = f"function/{name}/arg={c['arg']}/s{seed}"
            own = default_of(name, f)
            try:
                with Listening():
                    f(*[np.array(v) for v in a], **kw, **given(c["arg"]))
                    used = sorted(SEEN)
            except Exception as ex:  # noqa: BLE001
                if own_fault(ex):
                    raise
                evs.append(dict(ev="skip" if c["arg"] == "none" and isinstance(ex, SINGULAR) else "exc", start=1, key=key, what=repr(ex)[:200]))
                continue
            evs.append(dict(ev="use", start=1, kind="function", cls="", own=own, arg=c["arg"], same=0, key=key, used=used))
    return evs


ALIAS = {"corr_perm": "correlation_based_permutation_solver", "score_perm": "score_based_permutation_solver"}


def target(name, f):
    n = ALIAS.get(name.split("/")[0])
    return getattr(funcs, n) if n else f


def takes(name, f):
    return "flooring_fn" in inspect.signature(target(name, f)).parameters


def default_of(name, f):
    return "none" if inspect.signature(target(name, f)).parameters["flooring_fn"].default is None else "lib"


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("Flooring", "Flooring")
    cases = ctx.generate("FlooringGen", "FlooringGen" if ctx.quick else "FlooringGenBig")
    names = [n for n, e in sorted(wide().items()) if "flooring_fn" in inspect.signature(e.cls.__init__).parameters]
    jobs, fjobs = [], []
    for r in sorted({c["round"] for c in cases}):
        cs = [c for c in cases if c["round"] == r]
        for n in names:
            jobs.append((n, [c for c in cs if c["kind"] != "function"], rnd.choice([dict(n_ch=2, n_bins=4, n_frames=16),
                        dict(n_ch=3, n_bins=5, n_frames=20)]), ctx.seed * 100 + r))
        for n in funcs.table():
            fjobs.append((n, [c for c in cs if c["kind"] == "function"], ctx.seed * 100 + r))
    evs = []
    for t in pmap(class_events, jobs) + pmap(function_events, fjobs):
        evs += t
    ctx.extra.update(configurations=len(names), runs=sum(v.get("kind") == "run" for v in evs),
                     updates=sum(v.get("kind") == "update" for v in evs), functions=sum(v.get("kind") == "function" for v in evs),
                     skipped=sum(v["ev"] == "skip" for v in evs))
    ctx.sample(evs[0])
    ctx.sample(evs[-1])
    ctx.validate("FlooringTrace", evs)
    ctx.assumptions += ["the library's own flooring is recognised by its functions max_flooring and add_flooring being applied",
                        "the covariances IPSDTA rebuilds from its factors are always projected with the library's default"]

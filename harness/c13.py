"""C13: special functions against their definitions (cases and expectations from Special*.tla)."""
import functools
import random
import warnings

import numpy as np

import ssspy.special as sp
from rt import pmap, q
from ssspy.bss import _flooring as old_floor
from ssspy.bss import _psd as old_psd
from ssspy.special import flooring as new_floor
from ssspy.utils.flooring import choose_flooring_fn

FINE = 1e-12


def f(v):
    return q(v, FINE)


def cint(m):
    a = np.asarray(m, dtype=float)
    return a[..., 0] + 1j * a[..., 1]


def as_ints(a, size=1.0):
    """nearest integers and how far away (relative to size)"""
    a = np.asarray(a)
    if not np.all(np.isfinite(a)) or np.max(np.abs(a), initial=0) > 1e9:
        return np.zeros(a.shape, dtype=int).tolist(), float("inf")
    r = np.rint(a.real)
    off = float(np.max(np.abs(a - (r + (1j * np.rint(a.imag) if np.iscomplexobj(a) else 0))), initial=0))
    if np.iscomplexobj(a):
        out = np.stack([r, np.rint(a.imag)], axis=-1).astype(int).tolist()
    else:
        out = r.astype(int).tolist()
    return out, off / max(1.0, size)


def layouts(rng, a):
    k = rng.choice(["c", "f", "view", "c"])
    if a.ndim == 0:
        return np.array(a)
    if k == "f":
        return np.array(a, order="F")
    if k == "view":
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return np.array(a)


def axis_arg(rng, axes, ndim):
    """axes: 0-based list"""
    ax = [a - ndim if rng.random() < 0.5 else a for a in axes]
    rng.shuffle(ax)
    if len(axes) == ndim and rng.random() < 0.5:
        return None
    if len(ax) == 1 and rng.random() < 0.7:
        return ax[0]
    return tuple(ax)


# ------------------------------------------------------------------ replay of cases
def run_soft(case, rng):
    evs = []
    E = np.asarray(case["E"], dtype=float)
    S = np.asarray(case["S"], dtype=float)
    axes = [a - 1 for a in case["axes"]]
    for shift, prec in ((0.0, "double"), (rng.choice([700.0, -700.0, 745.0, -800.0, 1e4, -1e4, 3e5]), "double"),
                        (rng.choice([0.0, 3.0]), "single"), (None, "double")):
        if shift is None:  # every group at a level of its own
            level = np.array([rng.choice([-2e3, -800.0, 0.0, 700.0, 3e3]) for _ in range(E.size)]).reshape(E.shape)
            shift = np.max(level, axis=tuple(axes), keepdims=True) if axes else level
        X = np.log(E) + shift
        if prec == "single":
            X = X.astype(np.float32)
        X = layouts(rng, X)
        arg = axis_arg(rng, axes, 3)
        keep = rng.random() < 0.5
        key = f"soft/{case['id']}/{np.max(shift):g}/{prec}"
        before = X.copy()
        soft = sp.softmax(X, axis=arg) if arg is not None or rng.random() < 0.5 else sp.softmax(X)
        lse = sp.logsumexp(X, axis=arg, keepdims=keep) if keep or rng.random() < 0.5 else sp.logsumexp(X, axis=arg)
        soft, lse = np.asarray(soft), np.asarray(lse)
        ev = dict(ev="soft", start=1, key=key, prec=prec, E=case["E"], axes=case["axes"], keep=int(keep),
                  softshape=list(soft.shape), lseshape=list(lse.shape))
        want = tuple(1 if a in axes else n for a, n in enumerate(E.shape))
        full = np.broadcast_to(lse.reshape(want), E.shape) if lse.size == np.prod(want) else np.full(E.shape, np.nan)
        ev["soft"], off = as_ints(soft * S if soft.shape == E.shape else np.full(E.shape, np.nan))
        ev["softoff"] = f(off / np.max(S))
        ev["lse"], off = as_ints(np.exp(full.astype(float) - shift))
        ev["lseoff"] = f(off / np.max(S))
        evs.append(ev)
        evs.append(dict(ev="resid", start=1, key=key, prec="exact", what="input-touched",
                        r=0 if np.array_equal(before, X) else 1))
        evs.append(dict(ev="resid", start=1, key=key, prec=prec, what="softmax-sums-to-one",
                        r=f(np.max(np.abs(np.sum(soft, axis=tuple(axes)) - 1)))))
        evs.append(dict(ev="resid", start=1, key=key, prec="exact", what="softmax-sign", r=0 if np.all(soft > 0) else 1))
    return evs


def run_floor(case, rng):
    evs = []
    for scale in (1.0, 2.0 ** rng.choice([-40, -20, 30])):
        for mod, label in ((new_floor, "new"), (old_floor, "old"), (sp, "pkg")):
            for name in ("max", "add", "none"):
                fn = dict(max=mod.max_flooring, add=mod.add_flooring, none=mod.identity)[name]
                shape = rng.choice([(6,), (2, 3), (3, 1, 2), (1, 6)])
                x = layouts(rng, np.asarray(case["x"], dtype=float).reshape(shape) * scale)
                eps = case["eps"] * scale
                if name == "none":
                    out = fn(x)
                else:
                    out = fn(x, eps=eps) if rng.random() < 0.7 else functools.partial(fn, eps=eps)(x)
                got, off = as_ints(np.asarray(out) / scale)
                if np.shape(out) != shape:
                    off = 1
                evs.append(dict(ev="floor", start=1, key=f"floor/{case['id']}/{label}/{name}/{scale:g}", floor=name,
                                x=case["x"], eps=case["eps"], got=np.ravel(got).tolist(), off=f(off)))
    for mod in (new_floor, old_floor):
        for v in (-3.0, 0.0, 0, 7, 1e-12, np.array(-2.0)):
            bad = (float(mod.max_flooring(v)) != max(float(v), 1e-10)) + (float(mod.add_flooring(v)) != float(v) + 1e-10)
            evs.append(dict(ev="resid", start=1, key=f"floor/default/{v}", prec="exact", what="default-floor", r=bad))
    return evs


def run_psd(case, rng):
    evs = []
    den = case["den"] ** 2
    X = cint(case["X"]) / den
    if case["anti"]:
        X = X + cint(case["K"]) * rng.choice([1, 0.25, 1e-6])
    if not case["cplx"]:
        X = X.real
    nb, n = X.shape[0], X.shape[-1]
    for mod, label in ((sp, "new"), (old_psd, "old")):
        scale = 2.0 ** rng.choice([0, 0, -12, 10, 20])
        eps = case["eps"] * scale
        kind, kw = case["floor"], {}
        seps = case["eps"]
        if kind == "none":
            kw["flooring_fn"] = None
        elif kind == "add":
            kw["flooring_fn"] = functools.partial(new_floor.add_flooring, eps=eps)
        elif rng.random() < 0.3:  # the documented default floor
            scale, seps = 1.0, 0
        else:
            kw["flooring_fn"] = rng.choice([functools.partial(new_floor.max_flooring, eps=eps),
                                            lambda x, e=eps: np.maximum(x, e)])
        Xin = X * scale
        lead = rng.choice([(nb,), (1, nb), (nb, 1), (nb, 1, 1)])
        if nb == 1 and rng.random() < 0.5:
            lead = ()
        Xin = layouts(rng, Xin.reshape(lead + (n, n)))
        if rng.random() < 0.3:
            kw.update(axis1=Xin.ndim - 2, axis2=Xin.ndim - 1)
        out = mod.to_psd(Xin, **kw)
        key = f"psd/{case['id']}/{label}/{kind}/{scale:g}"
        if out.shape != Xin.shape:
            evs.append(dict(ev="resid", start=1, key=key, prec="exact", what="projection-shape", r=1))
            continue
        flat = out.reshape(nb, n, n)
        size = np.max(np.abs(flat)) / scale * den
        got, off = as_ints(flat.astype(complex) / scale * den, size)
        again = 0.0
        if kind != "add":
            again = np.max(np.abs(mod.to_psd(out, **kw) - out)) / max(np.max(np.abs(out)), scale)
        kw1 = {k: v for k, v in kw.items() if k == "flooring_fn"}
        alone = max(np.max(np.abs(mod.to_psd(Xin.reshape(nb, n, n)[b].copy(), **kw1) - flat[b])) for b in range(nb))
        evs.append(dict(ev="psd", start=1, key=key, m=case["m"], d=case["d"], floor=kind, eps=seps, cplx=case["cplx"],
                        complex=int(np.iscomplexobj(out)), got=got, off=f(off),
                        skew=0 if np.array_equal(out, out.swapaxes(-2, -1).conj()) else 1,
                        again=f(again), alone=f(alone / max(np.max(np.abs(flat)), scale))))
    return evs


class Owner:
    pass


def run_choose(case, rng):
    own, mine = (lambda x: x + 1), (lambda x: x + 2)
    kw = {}
    if case["owner"] == "without":
        kw["method"] = Owner()
    elif case["owner"] == "with":
        o = Owner()
        o.flooring_fn = mine
        kw["method"] = o
    elif rng.random() < 0.5:
        kw["method"] = None
    if case["asked"] == "own":
        kw["flooring_fn"] = own
    elif case["asked"] == "none":
        kw["flooring_fn"] = None
    elif case["asked"] == "bad":
        kw["flooring_fn"] = rng.choice([3, 1e-10, "max"])
    elif rng.random() < 0.5:
        kw["flooring_fn"] = "self"
    try:
        fn = choose_flooring_fn(**kw)
        x = np.array([-2.0, 0.0, 3.0])
        y = fn(x)
        got = "given" if fn is own else "owner" if fn is mine else "identity" if np.array_equal(x, y) else "other"
    except AssertionError:
        got = "refused"
    return [dict(ev="choose", start=1, key=f"choose/{case['id']}", asked=case["asked"], owner=case["owner"], got=got)]


# ------------------------------------------------------------------ any shape and magnitude
def ref_soft(X, axes):
    X = X.astype(np.longdouble)
    m = X.max(axis=axes, keepdims=True)
    e = np.exp(X - m)
    s = e.sum(axis=axes, keepdims=True)
    return e / s, np.log(s) + m


def run_random(item):
    seed, reps = item
    rng = random.Random(f"c13/{seed}")
    nrng = np.random.default_rng(seed)
    evs = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for r in range(reps):
            ndim = rng.randint(1, 5)
            shape = tuple(rng.randint(1, 5) for _ in range(ndim))
            mag = rng.choice([1e-300, 1e-3, 1.0, 30.0, 1e3, 1e6, 1e15, 1e300])
            X = nrng.standard_normal(shape) * mag
            kind = rng.choice(["f8", "i8", "tied", "f8", "one-out"])
            if kind == "i8":
                X = np.clip(X, -1e12, 1e12).astype(np.int64)
            elif kind == "tied":
                X = np.full(shape, mag)
            elif kind == "one-out":
                X = np.zeros(shape)
                X.flat[rng.randrange(X.size)] = rng.choice([1, -1]) * mag
            axes = sorted(rng.sample(range(ndim), rng.randint(1, ndim)))
            arg = axis_arg(rng, axes, ndim)
            keep = rng.random() < 0.5
            X = layouts(rng, X)
            key = f"rand/{seed}/{r}/{kind}/{mag:g}/{shape}/{arg}"
            try:
                s, l = np.asarray(sp.softmax(X, axis=arg)), np.asarray(sp.logsumexp(X, axis=arg, keepdims=keep))
            except Exception as e:
                evs.append(dict(ev="exc", start=1, key=key, error=repr(e)))
                continue
            rs, rl = ref_soft(X, tuple(axes))
            if not keep:
                rl = np.squeeze(rl, axis=tuple(axes))
            ok = s.shape == rs.shape and l.shape == rl.shape
            evs.append(dict(ev="resid", start=1, key=key, prec="exact", what="shape", r=0 if ok else 1))
            if ok:
                evs.append(dict(ev="resid", start=1, key=key, prec="double", what="softmax-value", r=f(np.max(np.abs(s - rs)))))
                evs.append(dict(ev="resid", start=1, key=key, prec="exact", what="softmax-sign", r=0 if np.all(s >= 0) else 1))
                evs.append(dict(ev="resid", start=1, key=key, prec="double", what="logsumexp-value",
                                r=f(np.max(np.abs(l - rl)) / max(1.0, float(np.max(np.abs(rl)))))))
            # projection of arbitrary matrices
            n = rng.randint(1, 6)
            lead = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 3)))
            scale = rng.choice([1e-6, 1.0, 1e8])
            M = nrng.standard_normal(lead + (n, n)) * scale
            if rng.random() < 0.6:
                M = M + 1j * nrng.standard_normal(lead + (n, n)) * scale
            if rng.random() < 0.3:  # rank deficient
                M = M[..., :1] @ M[..., :1].swapaxes(-2, -1).conj()
            eps = rng.choice([1e-10, 0.3, 0.0]) * scale
            out = sp.to_psd(layouts(rng, M), flooring_fn=functools.partial(sp.max_flooring, eps=eps))
            H = (M + M.swapaxes(-2, -1).conj()) / 2
            key = f"psdrand/{seed}/{r}/{lead}/{n}/{scale:g}"
            ok = out.shape == M.shape and np.iscomplexobj(out) == np.iscomplexobj(M)
            evs.append(dict(ev="resid", start=1, key=key, prec="exact", what="projection-shape", r=0 if ok else 1))
            if not ok:
                continue
            big = max(float(np.max(np.abs(H))), eps, 1e-300)
            lam = np.linalg.eigvalsh(out)
            lam0 = np.linalg.eigvalsh(H)
            evs.append(dict(ev="resid", start=1, key=key, prec="double", what="projection-eigenvalues",
                            r=f(np.max(np.abs(lam - np.maximum(lam0, eps))) / big)))
            evs.append(dict(ev="resid", start=1, key=key, prec="exact", what="projection-not-hermitian",
                            r=0 if np.array_equal(out, out.swapaxes(-2, -1).conj()) else 1))
            # same eigenvectors: out commutes with H, and out - H is the part that was lifted
            comm = np.max(np.abs(out @ H - H @ out)) / big**2
            evs.append(dict(ev="resid", start=1, key=key, prec="double", what="projection-eigenvectors", r=f(comm)))
            D = out - H
            evs.append(dict(ev="resid", start=1, key=key, prec="double", what="projection-lifts-only",
                            r=f(max(0.0, -float(np.min(np.linalg.eigvalsh(D)))) / big)))
            good = sp.to_psd(out, flooring_fn=functools.partial(sp.max_flooring, eps=eps))
            evs.append(dict(ev="resid", start=1, key=key, prec="double", what="projection-not-idempotent",
                            r=f(np.max(np.abs(good - out)) / big)))
    return evs


def run_case(item):
    case, seed = item
    rng = random.Random(f"c13/{seed}/{case['id']}")
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return globals()["run_" + case["kind"]](case, rng)
        except Exception as e:
            return [dict(ev="exc", start=1, key=f"{case['kind']}/{case['id']}", error=repr(e))]


def run(ctx):
    ctx.model("SpecialMC", "Special")
    cases = ctx.generate("SpecialGen", "SpecialGen" if ctx.quick else "SpecialGenBig", extra=("-seed", str(ctx.seed)))
    evs = [e for es in pmap(run_case, [(c, ctx.seed) for c in cases]) for e in es]
    reps = 60 if ctx.quick else 1200
    evs += [e for es in pmap(run_random, [(ctx.seed * 1000 + i, reps) for i in range(8)]) for e in es]
    ctx.sample(cases[0])
    ctx.sample(cases[5])
    ctx.extra["cases"] = len(cases)
    ctx.assumptions += [
        "exact cases: exponentials up to 200, up to 4 entries per axis, matrices up to 4x4 with rational eigenvectors",
        "arbitrary magnitudes (1e-300..1e300) and shapes up to 5-D are compared with extended-precision definitions",
    ]
    ctx.validate("SpecialTrace", evs, chunk=1500, heap="3g")

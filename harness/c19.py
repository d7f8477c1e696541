"""C19: proximal operators (exact cases from ProxGen.tla, arbitrary inputs by optimality conditions)."""
import random
import warnings

import numpy as np

from c13 import as_ints, cint, f, layouts
from rt import pmap
from ssspy.linalg import prox

SHAPES = [(12,), (3, 4), (2, 3, 2), (1, 12), (2, 1, 6), (2, 2, 3, 1)]


def big(a):
    return max(float(np.max(np.abs(a), initial=0)), 1e-300)


def herm(a):
    return a.swapaxes(-2, -1).conj()


def call(fn, x, mu, rng, **kw):
    """invalid values are errors, whoever suppresses them"""
    with np.errstate(divide="raise", invalid="raise"):
        if mu == 1 and rng.random() < 0.5:
            return fn(x, **kw)
        return fn(x, mu, **kw) if rng.random() < 0.3 else fn(x, step_size=mu, **kw)


def base(ev, key, inp, kept, out, alone):
    return dict(ev=ev, start=1, key=key, shape=list(out.shape), want=list(inp.shape),
                touched=int(not np.array_equal(inp, kept)), dtype=int(np.iscomplexobj(out) != np.iscomplexobj(inp)),
                alone=f(alone / big(out)))


def run_l1(case, rng):
    evs = []
    z = cint(case["x"])
    z = z if case["cplx"] else z.real
    m = np.abs(z)
    for s in (1.0, 2.0 ** rng.choice([-30, -6, 9, 40])):
        shape = rng.choice(SHAPES)
        x = layouts(rng, (z * s).reshape(shape))
        if s == 1 and not case["cplx"] and rng.random() < 0.3:
            x = x.astype(int)
        kept = x.copy()
        mu = case["mu"] * s
        out = np.asarray(call(prox.l1, x, mu, rng))
        key = f"l1/{case['id']}/{s:g}/{shape}"
        if out.shape != shape:
            evs.append(dict(ev="exc", start=1, key=key, error="shape"))
            continue
        flat = out.ravel()
        alone = max(abs(np.asarray(call(prox.l1, x.ravel()[k : k + 1].copy(), mu, rng))[0] - flat[k]) for k in range(12))
        e = base("l1", key, x, kept, out, alone)
        e["got"], off = as_ints(flat.astype(complex) / s * m, big(z) ** 2)
        e.update(x=case["x"], mu=case["mu"], m=np.rint(m).astype(int).tolist(), off=f(off))
        evs.append(e)
    return evs


def run_l21(case, rng):
    evs = []
    z = cint(case["x"])
    z = z if case["cplx"] else z.real
    m = np.linalg.norm(z, axis=-1)
    for s in (1.0, 2.0 ** rng.choice([-30, -6, 9, 40])):
        ax = case["axis"]
        ndim2 = z.shape[0] == 1 and ax != 0 and rng.random() < 0.5
        v = np.moveaxis(z, -1, ax) * s
        axis = ax
        if ndim2:
            v = v[0]
            axis = ax - 1
        x = layouts(rng, v)
        kept = x.copy()
        mu = case["mu"] * s
        kw = {}
        if axis != x.ndim - 1 or rng.random() < 0.5:
            kw["axis2"] = axis if rng.random() < 0.5 else axis - x.ndim
            if rng.random() < 0.5:
                kw["axis1"] = rng.choice([a for a in range(x.ndim) if a != axis])
        out = np.asarray(call(prox.l21, x, mu, rng, **kw))
        key = f"l21/{case['id']}/{s:g}/{kw.get('axis2', 'default')}"
        if out.shape != x.shape:
            evs.append(dict(ev="exc", start=1, key=key, error="shape"))
            continue
        y = np.moveaxis(out[None] if ndim2 else out, ax, -1)
        alone = 0.0
        for a in range(z.shape[0]):
            for b in range(z.shape[1]):
                one = np.asarray(call(prox.l21, (z[a, b] * s)[None], mu, rng))
                alone = max(alone, np.max(np.abs(one[0] - y[a, b])))
        e = base("l21", key, x, kept, out, alone)
        e["got"], off = as_ints(y.astype(complex) / s * m[..., None], big(z) ** 2)
        e.update(x=case["x"], mu=case["mu"], m=np.rint(m).astype(int).tolist(), off=f(off))
        evs.append(e)
    return evs


def run_log(case, rng):
    evs = []
    p = np.array(case["p"], dtype=float)
    v = p - case["mu"] / p
    for s in (1.0, 2.0 ** rng.choice([-15, -6, 9, 20])):
        shape = rng.choice(SHAPES)
        x = layouts(rng, (v * s).reshape(shape))
        kept = x.copy()
        mu = case["mu"] * s * s
        out = np.asarray(call(prox.neg_log, x, mu, rng))
        key = f"log/{case['id']}/{s:g}/{shape}"
        if out.shape != shape:
            evs.append(dict(ev="exc", start=1, key=key, error="shape"))
            continue
        alone = max(abs(np.asarray(call(prox.neg_log, x.ravel()[k : k + 1].copy(), mu, rng))[0] - out.ravel()[k]) for k in range(12))
        e = base("log", key, x, kept, out, alone)
        e["got"], off = as_ints(out.ravel() / s, 1.0)
        e.update(p=case["p"], mu=case["mu"], off=f(off))
        evs.append(e)
    return evs


def run_det(case, rng):
    evs = []
    den = case["den"]
    X0 = cint(case["X"]) / den
    X0 = X0 if case["cplx"] else X0.real
    nb, n = X0.shape[0], X0.shape[-1]
    for s in (1.0, 2.0 ** rng.choice([-15, -6, 9, 20])):
        lead = rng.choice([(nb,), (1, nb), (nb, 1)] + ([()] if nb == 1 else []))
        x = layouts(rng, (X0 * s).reshape(lead + (n, n)))
        kept = x.copy()
        mu = case["mu"] * s * s
        out = np.asarray(call(prox.neg_logdet, x, mu, rng))
        key = f"det/{case['id']}/{s:g}/{lead}"
        if out.shape != x.shape:
            evs.append(dict(ev="exc", start=1, key=key, error="shape"))
            continue
        flat = out.reshape(nb, n, n)
        alone = max(np.max(np.abs(np.asarray(call(prox.neg_logdet, (X0[b : b + 1] * s).copy(), mu, rng))[0] - flat[b])) for b in range(nb))
        e = base("det", key, x, kept, out, alone)
        e["got"], off = as_ints(flat.astype(complex) / s * den, big(flat / s * den))
        e.update(U=case["U"], V=case["V"], p=case["p"], mu=case["mu"], off=f(off))
        evs.append(e)
    return evs


# ------------------------------------------------------------------ optimality at arbitrary inputs
def resid(key, what, r, grade="fine"):
    return dict(ev="resid", start=1, key=key, what=what, r=(0 if r == 0 else 1) if grade == "exact" else f(r), grade=grade)


def shrink_conditions(key, name, x, p, mu, axis):
    """x - p is mu times the unit vector of p, or x is no longer than mu and p is zero (groups along axis)"""
    nx = np.linalg.norm(x, axis=axis, keepdims=True) if axis is not None else np.abs(x)
    npp = np.linalg.norm(p, axis=axis, keepdims=True) if axis is not None else np.abs(p)
    gone = nx <= mu
    size = max(big(x), mu)
    bad = np.max(np.abs(np.where(gone, p, 0)))
    unit = np.where(gone, 0, p / np.where(npp == 0, 1, npp))
    st = np.max(np.abs(np.where(gone, 0, x - p - mu * unit))) / size
    near = (np.abs(nx - mu) <= 1e-12 * size) | gone
    lost = float(np.any((npp == 0) & ~near))
    return [resid(key, name + "-small-not-zeroed", bad / size), resid(key, name + "-stationary", st), resid(key, name + "-lost", lost, "exact")]


def run_random(item):
    seed, reps = item
    rng = random.Random(f"c19r/{seed}")
    nrng = np.random.default_rng(seed)
    evs = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for r in range(reps):
            try:
                evs += one_random(rng, nrng, f"rand/{seed}/{r}")
            except Exception as e:
                evs.append(dict(ev="exc", start=1, key=f"rand/{seed}/{r}", error=repr(e)))
    return evs


def one_random(rng, nrng, key):
    evs = []
    shape = tuple(rng.randint(1, 5) for _ in range(rng.randint(2, 4)))
    cplx = rng.random() < 0.6
    s = rng.choice([1e-8, 1e-3, 1.0, 1e5])
    mu = rng.choice([0.01, 0.3, 1.0, 1, 2, 5.0]) * rng.choice([s, s, 1.0])
    x = nrng.standard_normal(shape) * s + (1j * nrng.standard_normal(shape) * s if cplx else 0)
    kind = rng.choice(["any", "zeros", "tied", "threshold", "any"])
    if kind == "zeros":
        x = x * (nrng.random(shape) < 0.5)
    elif kind == "tied":
        x = np.full(shape, x.ravel()[0])
    elif kind == "threshold":
        x = np.where(nrng.random(shape) < 0.5, mu, x).astype(x.dtype)
    key = f"{key}/{kind}/{'c' if cplx else 'r'}/{shape}/{mu:g}/{s:g}"
    p = call(prox.l1, layouts(rng, x), mu, rng)
    evs += shrink_conditions(key, "l1", x, p, mu, None)
    if kind == "threshold":
        evs.append(resid(key, "l1-at-threshold", float(np.any(p[x == mu] != 0)), "exact"))
    axis = rng.randrange(len(shape))
    p = call(prox.l21, layouts(rng, x), mu, rng, axis2=axis)
    evs += shrink_conditions(key, "l21", x, p, mu, axis)
    v = np.abs(x)
    p = call(prox.neg_log, layouts(rng, v), mu, rng)
    evs.append(resid(key, "log-stationary", float(np.max(np.abs(p * (p - v) - mu) / (p * np.maximum(p, v)))) if np.all(p > 0) else 1.0))
    n = rng.randint(1, 5)
    lead = tuple(rng.randint(1, 4) for _ in range(rng.randint(0, 2)))
    X = nrng.standard_normal(lead + (n, n)) * s + (1j * nrng.standard_normal(lead + (n, n)) * s if cplx else 0)
    deg = rng.choice(["full", "full", "tied", "deficient", "zero"])
    if deg == "tied":
        X = np.broadcast_to(np.eye(n) * s, lead + (n, n)).astype(X.dtype).copy()
    elif deg == "deficient":
        X[..., 0, :] = 0
    elif deg == "zero":
        X = X * 0
    P = call(prox.neg_logdet, layouts(rng, X), mu, rng)
    size = big(P) ** 2
    ok = P.shape == X.shape
    evs.append(resid(key + "/" + deg, "det-stationary", big((P - X) @ herm(P) - mu * np.eye(n)) / max(size, mu) if ok else 1.0))
    S = P @ herm(X)
    evs.append(resid(key + "/" + deg, "det-aligned", big(S - herm(S)) / max(size, mu) if ok else 1.0))
    evs.append(resid(key + "/" + deg, "det-branch", max(0.0, -float(np.min(np.linalg.eigvalsh((S + herm(S)) / 2)))) / max(size, mu) if ok else 1.0))
    return evs


def run_case(item):
    case, seed = item
    rng = random.Random(f"c19/{seed}/{case['id']}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return globals()["run_" + case["kind"]](case, rng)
        except Exception as e:
            return [dict(ev="exc", start=1, key=f"{case['kind']}/{case['id']}", error=repr(e))]


def run(ctx):
    ctx.model("ProxMC", "Prox")
    cases = ctx.generate("ProxGen", "ProxGen" if ctx.quick else "ProxGenBig", extra=("-seed", str(ctx.seed)))
    evs = [e for es in pmap(run_case, [(c, ctx.seed) for c in cases]) for e in es]
    reps = 60 if ctx.quick else 1500
    evs += [e for es in pmap(run_random, [(ctx.seed * 1000 + i, reps) for i in range(8)]) for e in es]
    ctx.sample(cases[0])
    ctx.sample(cases[1])
    ctx.extra["cases"] = len(cases)
    ctx.assumptions += [
        "exact cases: integer lengths up to 13 times a power of two, step sizes with integer logarithmic roots, matrices up to 4x4",
        "arbitrary inputs judged by the optimality conditions of the penalized problem (strictly convex, or the documented branch)",
    ]
    ctx.validate("ProxTrace", evs, chunk=1500, heap="3g")

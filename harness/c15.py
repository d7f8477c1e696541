"""C15: whitening and PCA (exact cases from TransformGen.tla, arbitrary inputs by residuals)."""
import random
import warnings

import numpy as np

from c13 import as_ints, cint, f, layouts
from rt import pmap
from ssspy.transform import pca, whiten


def pack(kind, X):
    """X: (batch, bins, channels, frames) -> the layout the function takes"""
    if kind == "r2":
        return X[0, 0].real
    if kind == "r3":
        return X[:, 0].real
    if kind == "c3":
        return X[0].transpose(1, 0, 2)
    return X.transpose(0, 2, 1, 3)


def unpack(kind, Y):
    if kind == "r2":
        return Y[None, None]
    if kind == "r3":
        return Y[:, None]
    if kind == "c3":
        return Y.transpose(1, 0, 2)[None]
    return Y.transpose(0, 2, 1, 3)


def gram(Y):
    return Y.swapaxes(-2, -1).conj() @ Y


def big(a):
    return max(float(np.max(np.abs(a), initial=0)), 1e-300)


def call(fn, X, ascend):
    if fn == "whiten":
        return whiten(X)
    if ascend and random.random() < 0.5:
        return pca(X)
    return pca(X, ascend=bool(ascend))


def measure(fn, kind, X, ascend, rng, scale=1.0, p=None):
    """X: (batch, bins, channels, frames)"""
    inp = layouts(rng, pack(kind, X * scale))
    kept = inp.copy()
    out = np.asarray(call(fn, inp, ascend))
    na, nb, n, t = X.shape
    m = dict(shape=list(out.shape), want=list(inp.shape), touched=int(not np.array_equal(inp, kept)),
             dtype=int(np.iscomplexobj(out) != np.iscomplexobj(inp)))
    if out.shape != inp.shape:
        return None, m
    Y = unpack(kind, out) / (1.0 if fn == "whiten" else scale)
    C = Y @ Y.swapaxes(-2, -1).conj() / t
    D = np.einsum("abnn->abn", C).real
    off = C - np.einsum("abn,nm->abnm", D, np.eye(n))
    top = np.maximum(np.max(D, axis=-1), 1e-300)
    m["corr"] = f(np.max(np.abs(off) / top[..., None, None]))
    m["power"] = f(np.max(np.abs(D - 1)))
    dif = np.diff(D, axis=-1) / top[..., None]
    m["order"] = int(np.all(dif <= 1e-9 if ascend else dif >= -1e-9))
    G = gram(Y)
    # every block alone
    worst = 0.0
    for a in range(na):
        for b in range(nb):
            one = unpack(kind, np.asarray(call(fn, pack(kind, X[a : a + 1, b : b + 1] * scale).copy(), ascend)))
            one = one / (1.0 if fn == "whiten" else scale)
            worst = max(worst, np.max(np.abs(gram(one)[0, 0] - G[a, b])) / big(G[a, b]))
    m["alone"] = f(worst)
    if p is None:
        p = rng.sample(range(t), t)
    moved = unpack(kind, np.asarray(call(fn, pack(kind, X[..., p] * scale).copy(), ascend))) / (1.0 if fn == "whiten" else scale)
    m["frames"] = f(np.max(np.abs(gram(moved) - G[..., p, :][..., p]) / big(G)))
    return (Y, G), m


def run_case(item):
    case, seed = item
    rng = random.Random(f"c15/{seed}/{case['id']}")
    random.seed(f"c15/{seed}/{case['id']}")
    evs = []
    X = cint(case["X"])
    det = np.array(case["det"], dtype=float)
    t = case["t"]
    p = [q - 1 for q in case["p"]]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for fn in ("whiten", "pca"):
            for scale in (1.0, 2.0 ** rng.choice([-17, -5, 11])):
                key = f"{fn}/{case['kind']}/{case['id']}/{scale:g}"
                try:
                    r, m = measure(fn, case["kind"], X, case["ascend"], rng, scale, p)
                    if r is None:
                        evs.append(dict(ev="exc", start=1, key=key, error=f"shape {m}"))
                        continue
                    G = r[1] * (det / t)[..., None, None] if fn == "whiten" else r[1]
                    cplx = np.iscomplexobj(pack(case["kind"], X))
                    ints, off = as_ints(G.astype(complex), 1.0)
                    rel = np.max(np.abs(G - np.rint(G.real) - 1j * np.rint(G.imag)), axis=(-2, -1)) / np.maximum(1, np.max(np.abs(G), axis=(-2, -1)))
                    evs.append(dict(ev="out", start=1, key=key, fn=fn, X=case["X"], gram=ints,
                                    off=f(np.max(rel) if np.isfinite(off) else np.inf), **m))
                except Exception as e:
                    evs.append(dict(ev="exc", start=1, key=key, error=repr(e)))
    return evs


def resid(key, what, r, grade="fine"):
    return dict(ev="resid", start=1, key=key, what=what, r=f(r), grade=grade)


def run_random(item):
    seed, reps = item
    rng = random.Random(f"c15r/{seed}")
    random.seed(f"c15r/{seed}")
    nrng = np.random.default_rng(seed)
    evs = []
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for r in range(reps):
            kind = rng.choice(["r2", "r3", "c3", "c4"])
            n = rng.randint(1, 6)
            t = n + rng.choice([1, 3, 20, 100])
            na = rng.randint(1, 3) if kind in ("r3", "c4") else 1
            nb = rng.randint(1, 5) if kind in ("c3", "c4") else 1
            X = nrng.standard_normal((na, nb, n, t)) + (1j * nrng.standard_normal((na, nb, n, t)) if kind[0] == "c" else 0)
            mix = nrng.standard_normal((na, nb, n, n)) + (1j * nrng.standard_normal((na, nb, n, n)) if kind[0] == "c" else 0)
            X = (mix + 1.5 * np.eye(n)) @ X + rng.choice([0, 0, 3.0])  # a nonzero mean is not removed
            scale = rng.choice([1e-6, 1e-3, 1.0, 1e4])
            per = scale * 10.0 ** nrng.integers(-2, 3, size=(na, nb, 1, 1))
            X = X * per
            cond = np.max(np.linalg.cond(X)) ** 2
            if cond > 1e5:
                continue
            ascend = rng.randint(0, 1)
            for fn in ("whiten", "pca"):
                key = f"rand/{fn}/{seed}/{r}/{kind}/{n}x{t}"
                try:
                    res, m = measure(fn, kind, X, ascend, rng)
                except Exception as e:
                    evs.append(dict(ev="exc", start=1, key=key, error=repr(e)))
                    continue
                if res is None:
                    evs.append(dict(ev="exc", start=1, key=key, error=f"shape {m}"))
                    continue
                Y, G = res
                evs.append(dict(ev="resid", start=1, key=key, what=fn + "-correlated", r=m["corr"], grade="fine"))
                evs.append(dict(ev="resid", start=1, key=key, what=fn + "-depends-on-other-blocks", r=m["alone"], grade="fine"))
                evs.append(dict(ev="resid", start=1, key=key, what=fn + "-depends-on-frame-order", r=m["frames"], grade="fine"))
                evs.append(dict(ev="resid", start=1, key=key, what=fn + "-dtype-or-input", r=m["dtype"] + m["touched"], grade="exact"))
                # the linear map that produced Y, estimated by least squares
                M = Y @ np.linalg.pinv(X)
                fit = np.max(np.abs(M @ X - Y)) / big(Y)
                evs.append(resid(key, fn + "-not-a-linear-map", fit))
                if fn == "whiten":
                    evs.append(dict(ev="resid", start=1, key=key, what="whiten-variance", r=m["power"], grade="fine"))
                else:
                    U = M @ M.swapaxes(-2, -1).conj() - np.eye(n)
                    evs.append(resid(key, "pca-not-unitary", np.max(np.abs(U))))
                    evs.append(dict(ev="resid", start=1, key=key, what="pca-order", r=1 - m["order"], grade="exact"))
                    pw = np.sum(np.abs(Y) ** 2, axis=(-2, -1)) / np.sum(np.abs(X) ** 2, axis=(-2, -1)) - 1
                    evs.append(resid(key, "pca-total-power", np.max(np.abs(pw))))
        for fn in (whiten, pca):
            for bad in (np.ones((2, 5)) * 1j, np.ones((2, 2, 2, 5)), np.ones(4), np.ones((2, 2, 2, 2, 5)) * 1j):
                try:
                    fn(bad)
                    ok = 0
                except ValueError:
                    ok = 1
                except Exception:
                    ok = 0
                evs.append(dict(ev="refuse", start=1, key=f"refuse/{fn.__name__}/{bad.ndim}", refused=ok))
    return evs


def run(ctx):
    ctx.model("TransformMC", "Transform", workers=8)
    cases = ctx.generate("TransformGen", "TransformGen" if ctx.quick else "TransformGenBig", extra=("-seed", str(ctx.seed)))
    evs = [e for es in pmap(run_case, [(c, ctx.seed) for c in cases]) for e in es]
    reps = 60 if ctx.quick else 1500
    evs += [e for es in pmap(run_random, [(ctx.seed * 1000 + i, reps) for i in range(8)]) for e in es]
    ctx.sample(cases[0])
    ctx.extra["cases"] = len(cases)
    ctx.assumptions += [
        "exact cases: Gaussian-integer mixtures of full rank, up to 4 channels, 3 bins, batch 3",
        "arbitrary inputs: condition number of the mixture below about 300",
    ]
    ctx.validate("TransformTrace", evs, chunk=1200, heap="3g")

"""C12: model parameters stay in their feasible set at every iteration."""
import copy
import functools
import inspect
import random

import numpy as np

from catalog import add_flooring, max_flooring
from iterlib import own_fault, plain_kwargs
from objective import apply, family, filter_of
from rt import pmap, q
from runs import SHAPES, follow, options, wide

FLOORS = {"default": 1e-10, "big": 1e-3, "add": 1e-4, "plain": 1e-10, "zeros": 1e-10, "silent": 1e-10, "mdp": 1e-10, "user": 1e-10}


def famname(e):
    f = family(e)
    part = "part" if e.kwargs.get("partitioning") else ""
    return {"gauss": "ilrma" + part, "t": "ilrma" + part, "ggd": "ilrma" + part, "mnmf": "mnmf" + part,
            "fastmnmf": "fastmnmf", "psdtf": "psdtf", "tpsdtf": "psdtf", "mixture": "mixture"}.get(
                f, "variance" if "GaussIVA" in e.name else "filter")


def norm_on(e):
    n = e.cls.__name__
    key = "source_normalization" if "IPSDTA" in n else "normalization"
    have = inspect.signature(e.cls.__init__).parameters
    if key not in have:
        return key, None
    return key, e.kwargs.get(key, have[key].default)


def scalar(a, floor):
    a = np.asarray(a)
    fin = bool(np.all(np.isfinite(a)))
    lo = float(a.min()) if fin else 0.0
    return dict(fin=int(fin), neg=q(max(0.0, -lo)) if fin else 0, low=q(max(0.0, floor - lo) / floor) if floor and fin else 0,
                over=q(max(0.0, float(a.max()) - 1)) if fin else 0)


def matrix(A, floor, tr=None):
    A = np.asarray(A)
    fin = bool(np.all(np.isfinite(A)))
    r = dict(fin=int(fin), neg=0, low=0, herm=0, singular=0, trace=0, over=0)
    if fin:
        s = np.abs(A).max()
        ev = np.linalg.eigvalsh((A + A.swapaxes(-1, -2).conj()) / 2)
        r.update(neg=q(max(0, -ev.min()) / s), herm=q(np.abs(A - A.swapaxes(-1, -2).conj()).max() / s),
                 low=q(max(0, floor * (1 - 1e-6) - 1e-13 * s - ev.min()) / floor) if floor else 0, singular=int(ev.min() < -1e-13 * s),
                 trace=q(np.abs((np.trace(A, axis1=-2, axis2=-1).real if tr is None else tr(A)) - 1).max()))
    return r


def measure(e, m, fam, floor, posterior=None):
    par = {}
    if fam.startswith(("ilrma", "mnmf", "fastmnmf")):
        par["basis"] = scalar(m.basis, floor)
        par["activation"] = scalar(m.activation, floor)
        if "part" in fam:
            par["latent"] = dict(scalar(m.latent, floor), sum=q(np.abs(m.latent.sum(axis=0) - 1).max()))
    if fam.startswith("mnmf"):
        par["spatial"] = matrix(m.spatial, floor)
    if fam == "fastmnmf":
        par["spatial"] = scalar(m.spatial, 0)
    if fam == "psdtf":
        T = m.basis if isinstance(m.basis, tuple) else (m.basis,)
        ms = [matrix(t, floor) for t in T]
        par["basis"] = {k: (min if k == "fin" else max)(a[k] for a in ms) for k in ms[0]}
        tr = sum(np.trace(t, axis1=-2, axis2=-1).real.sum(axis=-1) for t in T)
        par["basis"]["trace"] = q(np.abs(tr - 1).max())
        par["activation"] = scalar(m.activation, 0)
    if fam == "mixture":
        par["mixing"] = dict(scalar(m.mixing, 0), sum=q(np.abs(m.mixing.sum(axis=0) - 1).max()))
        par["spatial"] = matrix(m.covariance, floor)
        if m.posterior is not None:
            par["posterior"] = dict(scalar(m.posterior, 0), sum=q(np.abs(m.posterior.sum(axis=0) - 1).max()))
    if fam == "variance":
        par["variance"] = scalar(m.variance, 0)
    F = m.diagonalizer if fam == "fastmnmf" else getattr(m, "demix_filter", None)
    if F is not None:
        fin = bool(np.all(np.isfinite(F)))
        par["filter"] = dict(fin=int(fin), neg=0, low=0, over=0, singular=int(fin and not np.all(np.linalg.cond(F) < 1e14)))
    return par


def power(e, m, fam):
    if fam == "fastmnmf":
        y = apply(np.array(m.diagonalizer), m.input)
        return q(np.abs(np.mean(np.abs(y) ** 2, axis=(1, 2)) - 1).max())
    if fam.startswith("ilrma"):
        W = getattr(m, "demix_filter", None)
        y = m.output if W is None else apply(np.array(W), m.input)
        return q(np.abs(np.mean(np.abs(y) ** 2, axis=(1, 2)) - 1).max())
    return 0


def tag_over(e, tag):
    """(constructor overrides, data change) or None"""
    have = inspect.signature(e.cls.__init__).parameters
    over = dict(plain_kwargs(e)) if tag != "default" else {}
    if tag in ("big", "add"):
        if "flooring_fn" not in have:
            return None
        over["flooring_fn"] = functools.partial(max_flooring if tag == "big" else add_flooring, eps=FLOORS[tag])
    if tag == "mdp":
        o = options(e, "mdp")
        return None if o is None else o
    if tag in ("zeros", "user") and not famname(e).startswith(("ilrma", "mnmf", "fastmnmf")):
        return None
    return over


def user_init(e, fam, shape, seed, tag):
    rng = np.random.default_rng(seed + 1000)
    K = e.kwargs["n_basis"]
    N = e.kwargs.get("n_sources") or shape["n_ch"]
    nb, t = shape["n_bins"], shape["n_frames"]
    part = "part" in fam
    T = rng.random((nb, K) if part else (N, nb, K)) * 3
    V = rng.random((K, t) if part else (N, K, t)) * 3
    kw = {}
    if tag == "zeros" and K > 1:           # exact zeros, the modelled variance staying positive
        T.reshape(-1, K)[::3, 0] = 0
        V.reshape(-1, K, t)[:, 0, ::4] = 0
        T[..., 1:] += 0.1
        V.reshape(-1, K, t)[:, 1:] += 0.1
    kw.update(basis=T, activation=V)
    if part:
        Z = rng.random((N, K)) + 0.1
        if tag == "zeros" and K > N:
            Z[:, 0] = 0
            Z[0, 0] = 1
        kw["latent"] = Z / Z.sum(axis=0)
    return kw


def events_of(args):
    name, shape, seed, tag, n_iter = args
    e = wide()[name]
    fam = famname(e)
    over = tag_over(e, tag)
    key = f"{name}/c{shape['n_ch']}f{shape['n_bins']}/{tag}/s{seed}"
    _, norm = norm_on(e)
    norm = {None: 0, False: 0, True: 1, "power": 1, "projection_back": 2}[norm]
    evs = []
    zero = tag in ("zeros", "user")
    call = user_init(e, fam, shape, seed, tag) if zero else None

    def visit(m, k):
        evs.append(dict(ev="state", fam=fam, key=f"{key}/i{k}", k=k, norm=norm, random=int(not zero),
                        smallfloor=int(FLOORS[tag] < 1e-9), nofilter=int(getattr(m, "demix_filter", None) is None and fam != "fastmnmf"),
                        par=measure(e, m, fam, FLOORS[tag]), power=0 if tag == "add" else power(e, m, fam)))

    try:
        import runs
        x = runs.data_for(e, seed, **shape)
        if tag == "silent":
            x[..., ::7] = 0
        follow(e, seed, shape, n_iter, visit, over, call=call, data=x)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        if tag in ("zeros", "silent") and isinstance(ex, np.linalg.LinAlgError):
            return evs                           # exact zeros may make weighted covariances singular
        evs.append(dict(ev="exc", key=key, what=repr(ex)[:300]))
    return evs


def invariance(args):
    """losses with and without normalization"""
    name, shape, seed, n_iter, pair = args
    e = wide()[name]
    key, _ = norm_on(e)
    fam = famname(e)
    ev = dict(ev="inv", fam=fam, key=f"inv/{name}/{pair}/c{shape['n_ch']}f{shape['n_bins']}/s{seed}")
    evs = []
    got = []

    def visit(m, k):
        got[-1].append(m.loss[-1])
        fn = next((getattr(m, f) for f in ("normalize", "normalize_covariance", "normalize_block_decomposition_psdtf")
                   if hasattr(m, f)), None)
        if len(got) > 1 or fn is None or (k == 0 and pair == "projection_back"):    # zero rows: an identity filter
            return
        mm = copy.copy(m)                       # the running object is left alone
        for a, v in list(vars(mm).items()):
            if isinstance(v, np.ndarray):
                setattr(mm, a, v.copy())
        setattr(mm, key, pair)
        getattr(mm, fn.__name__)()
        evs.append(dict(ev, key=ev["key"] + f"/one{k}", diff=q(abs(mm.compute_loss() - m.loss[-1]) / max(1, abs(m.loss[-1])))))

    try:
        for v in (False, pair):
            got.append([])
            follow(e, seed, shape, n_iter, visit, dict(plain_kwargs(e), **{key: v}))
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return evs + [dict(ev="exc", key=ev["key"], what=repr(ex)[:300])]
    if "part" not in fam and not (fam == "mixture" and shape["n_ch"] > 2):                       # a shared basis makes the weights' own renormalization path dependent
        d = np.abs(np.array(got[0]) - np.array(got[1])) / np.maximum(1, np.abs(got[0]))
        evs.append(dict(ev, diff=q(d.max())))
    return evs


TAGS = ("default", "plain", "big", "add", "zeros", "silent", "mdp", "user")


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("FeasibleMC", "Feasible" if ctx.quick else "FeasibleBig", timeout=800)
    jobs, inv = [], []
    for name, e in sorted(wide().items()):
        fam = famname(e)
        light = fam in ("filter", "variance")
        tags = [t for t in TAGS if tag_over(e, t) is not None]
        if light:
            tags = [t for t in tags if t in ("default", "plain", "mdp")]
        for s in SHAPES:
            n_iter = 3 if ctx.quick else 4 if fam == "variance" else 10
            for tag in (rnd.sample(tags, 1 if light else 2) if ctx.quick else tags):
                for k in range(1 if ctx.quick else 3):
                    jobs.append((name, s, ctx.seed + k, tag, n_iter))
            if norm_on(e)[1] is None or light:
                continue
            pairs = [True] + (["projection_back"] if fam == "ilrma" else [])
            for pair in pairs:
                for k in range(1 if ctx.quick else 3):
                    if not ctx.quick or rnd.random() < 0.5:
                        inv.append((name, s, ctx.seed + k, 3, pair))
    rnd.shuffle(jobs)
    evs = []
    for t in pmap(events_of, jobs):
        evs += t
    for t in pmap(invariance, inv):
        evs += t
    ctx.extra.update(runs=len(jobs), normalization_pairs=len(inv), configurations=len({j[0] for j in jobs}))
    ctx.sample(evs[0])
    ctx.sample(evs[-1])
    for v in evs:
        v["start"] = 1
    ctx.validate("FeasibleTrace", evs, ntraces=len(jobs) + len(inv))
    ctx.assumptions += ["eigenvalues and sums are computed by numpy with 1e-9 relative tolerance"]

"""C25: separated signals stay separated, and are approached."""
import itertools
import random
import warnings

import numpy as np

from c07 import fam_of, one, rule_of, starting
from iterlib import own_fault, plain_kwargs
from rt import pmap, q, rel
from runs import wide
from ssspy.transform import whiten


def mixing(case):
    A = np.array(case["A"], float)
    return (A[..., 0] + (0 if case["real"] else 1j) * A[..., 1]) / case["den"]


def recording(case, seed, base):
    """Sources whose magnitudes recur under every relative sign, and their mixture."""
    rng = np.random.default_rng(seed * 1000 + case["id"])
    n, F = case["n"], 1 if case["real"] else 4
    if case["real"]:
        s = rng.laplace(size=(n, 1, base)) * (0.3 + rng.random((n, 1, base)))
    else:
        g = rng.exponential(size=(n, 1, base)) ** 1.5 + 0.05
        s = g * (0.5 + rng.random((n, F, base))) * np.exp(2j * np.pi * rng.random((n, F, base)))
    H = np.array(case["signs"])
    s = np.concatenate([s * H[:, k][:, None, None] for k in range(H.shape[1])], axis=-1)
    return s, np.einsum("bcd,dbt->cbt", mixing(case), s)


def coefficients(y, s):
    """y[n, f] in terms of the sources: (bins, n, sources)"""
    G = np.einsum("cbt,dbt->bcd", s, s.conj())
    return np.einsum("cbt,dbt->bcd", y, s.conj()) @ np.linalg.inv(G)


def at_separation(e, case, x, s, st, columns):
    """Initial state in which output i is source perm[i], scaled."""
    fam, p = fam_of(e), np.array(case["perm"]) - 1
    D = np.array(case["scales"]) / 4
    W = np.linalg.inv(mixing(case))[:, p] * D[:, None]
    if fam in ("fastiva", "fastica"):
        z = whiten(x[:, 0] if case["real"] else x)
        W = np.linalg.inv(coefficients(z[:, None] if case["real"] else z, s))[:, p]
        W = W / np.linalg.norm(W, axis=-1, keepdims=True)
    if "activation" in st:                       # what does not see signs does not tell the columns apart
        st["activation"] = np.tile(st["activation"][..., : x.shape[-1] // columns], columns)
    return W


def put(e, case, st, W):
    W = W[0] if case["real"] else W
    st["diagonalizer" if fam_of(e) == "fastmnmf" else "demix_filter"] = W
    if "auxiliary1" in st:
        st["auxiliary1"] = W.copy()


def outputs(e, case, m, y, x):
    if fam_of(e) == "fastmnmf":
        y = np.einsum("bcd,dbt->cbt", m.diagonalizer, x)
    return y[:, None] if case["real"] else y


def shape_of(e, case, x, s):
    if fam_of(e) in ("prox", "hva"):
        g = 0.7 / max(np.linalg.norm(x[:, b], 2) for b in range(x.shape[1]))
        return x * g, s * g
    return x, s


def options(e, name, tag):
    if tag == "plain":
        return dict(plain_kwargs(e))
    over = {"permutation_alignment": False} if "FDICA" in name else {}
    if tag == "mdp":
        over["scale_restoration"] = "minimal_distortion_principle"
    return over


def begin(name, case, seed, kind, tag):
    e = wide()[name]
    return e, dict(ev="exc", start=1, key=f"{name}/{kind}/{tag}/case{case['id']}:{case['kind']}/s{seed}", cls=e.cls.__name__, finite=1,
                   fam=fam_of(e), rule=rule_of(e), unitary=case["unitary"], n=case["n"], perm=case["perm"])


def stay(args):
    name, case, seed, tag = args
    e, ev = begin(name, case, seed, "stay", tag)
    # an eigenvector step jumps when a source happens to correlate with the weights of another one: long recordings
    s, x = recording(case, seed, 120 if name == "FasterIVA" or ev["rule"] == "IPA" else case["base"])
    x, s = shape_of(e, case, x, s)
    xx = x[:, 0] if case["real"] else x
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            st = starting(e, xx, seed)
            put(e, case, st, at_separation(e, case, x, s, st, len(case["signs"][0])))
            m, y = one(e, xx, st, seed, options(e, name, tag), min(case["iter"], 2 if "Grad" in name else 4))
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev, what=repr(ex)[:300])]
    r = dict(ev, ev="sep", own=[], leak=0, rest=0, image=0, restored=int(tag != "plain" and fam_of(e) != "fastmnmf" and not case["real"]))
    y = outputs(e, case, m, y, x)
    if not np.isfinite(y).all():
        return [dict(r, finite=0)]
    B = coefficients(y, s)
    a = np.abs(B)
    own = a.argmax(-1)
    top = np.take_along_axis(a, own[..., None], -1)
    np.put_along_axis(a, own[..., None], 0, -1)
    r["own"] = [[int(i) + 1 for i in row] for row in own]
    r["leak"] = q((a / top).max())
    r["rest"] = q(rel(y, np.einsum("bcd,dbt->cbt", B, s)))
    if r["restored"]:
        want = np.stack([mixing(case)[b, 0, own[b]] for b in range(len(own))])      # at the first microphone
        got = np.take_along_axis(B, own[..., None], -1)[..., 0]
        r["image"] = q(np.abs(got - want).max() / np.abs(want).max())
    return [r]


def share(B, p):
    P = np.abs(B) ** 2
    return np.mean(np.take_along_axis(P, np.broadcast_to(p, P.shape[:-1])[..., None], -1)[..., 0] / P.sum(-1))


def ppm(v):
    return int(min(2e9, max(0, round(v * 1e6)))) if np.isfinite(v) else 2000000000


def near(args):
    name, case, seed = args
    e, ev = begin(name, case, seed, "near", "plain")
    s, x = recording(case, seed, 240 if name == "FasterIVA" else 80)
    x, s = shape_of(e, case, x, s)
    xx = x[:, 0] if case["real"] else x
    rng = np.random.default_rng(seed + case["id"])
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            st = starting(e, xx, seed)
            W = at_separation(e, case, x, s, st, len(case["signs"][0]))
            E = 0.1 * (rng.standard_normal(W.shape) + (0 if case["real"] else 1j) * rng.standard_normal(W.shape))
            W = W + E @ W
            if fam_of(e) in ("fastiva", "fastica"):
                u, _, v = np.linalg.svd(W)
                W = u @ v
            put(e, case, st, W)
            m0, y0 = one(e, xx, st, seed, options(e, name, "plain"), 0)
            m1, y1 = one(e, xx, st, seed, options(e, name, "plain"), 30)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev, what=repr(ex)[:300])]
    p = np.array(case["perm"]) - 1
    y0, y1 = outputs(e, case, m0, y0, x), outputs(e, case, m1, y1, x)
    r = dict(ev, ev="near", finite=int(np.isfinite(y1).all()), before=0, after=0)
    if r["finite"]:
        r.update(before=ppm(1 - share(coefficients(y0, s), p)), after=ppm(1 - share(coefficients(y1, s), p)))
    return [r]


COLD = ("AuxIVA/IP", "AuxIVA/IP2", "AuxIVA/ISS", "AuxIVA/ISS2", "AuxIVA/IPA", "AuxLaplaceIVA/IP", "AuxLaplaceIVA/IP2", "AuxLaplaceIVA/ISS", "AuxLaplaceIVA/ISS2",
        "AuxLaplaceIVA/IPA", "FasterIVA")


def cold(args):
    """From the default start, on independent sources with common activity across bins (median of several recordings)."""
    name, case, seed = args
    e, ev = begin(name, case, seed, "cold", "plain")
    n, F, T = case["n"], 16, 400
    every = []
    for k in range(5):
        rng = np.random.default_rng(seed * 10000 + case["id"] * 10 + k)
        g = rng.exponential(size=(n, 1, T)) ** 1.5
        s = g * (rng.standard_normal((n, F, T)) + 1j * rng.standard_normal((n, F, T)))
        A = rng.standard_normal((F, n, n)) + 1j * rng.standard_normal((F, n, n))
        x = np.einsum("bcd,dbt->cbt", A, s)
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                y = e.build(seed, **dict(plain_kwargs(e), record_loss=False))(x, n_iter=30)
        except Exception as ex:  # noqa: BLE001
            if own_fault(ex):
                raise
            return [dict(ev, what=repr(ex)[:300])]
        if not np.isfinite(y).all():
            return [dict(ev, ev="cold", finite=0, share=0)]
        B = coefficients(y, s)
        every.append(max(share(B, np.array(p)) for p in itertools.permutations(range(n))))
    return [dict(ev, ev="cold", share=ppm(float(np.median(every))), shares=[ppm(v) for v in every])]


def mask(args):
    """Every time-frequency point belongs to one source; started from the covariances of those sources."""
    name, case, seed = args
    e, ev = begin(name, case, seed, "mask", "plain")
    N = C = case["n"]
    rng = np.random.default_rng(seed * 1000 + case["id"])
    F, T = 4, 60
    own = rng.integers(0, N, (F, T))
    for n in range(N):
        own[:, n::N][:, :4] = n
    p = np.array(case["perm"]) - 1
    A = mixing(case)
    s = (rng.standard_normal((F, T)) + 1j * rng.standard_normal((F, T))) * rng.exponential(size=(F, T))
    x = np.stack([A[f][:, own[f]] * s[f] for f in range(F)], 1)
    x = x + 1e-2 * np.abs(x).mean() * (rng.standard_normal(x.shape) + 1j * rng.standard_normal(x.shape))
    B = np.einsum("fcn,fdn->nfcd", A, A.conj()) / np.sum(np.abs(A) ** 2, 1).T[..., None, None] + 0.1 * np.eye(C)
    B = B[p]
    st = {"mixing": np.full((N, F), 1 / N), "covariance": B / np.trace(B, axis1=-2, axis2=-1).real[..., None, None]}
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            m, y = one(e, x, st, seed, {"permutation_alignment": False}, 1 + 3 * case["iter"])
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev, what=repr(ex)[:300])]
    P = m.posterior
    if not (np.isfinite(y).all() and np.isfinite(P).all()):
        return [dict(ev, ev="mask", finite=0, hit=0, image=0)]
    image = np.where(own[None] == p[:, None, None], x[0], 0)
    return [dict(ev, ev="mask", hit=ppm((p[P.argmax(0)] == own).mean()), image=ppm(rel(y, image)))]


def model(args):
    """Sources that follow the model exactly; started from the parameters they were drawn with."""
    name, case, seed = args
    e, ev = begin(name, case, seed, "model", "plain")
    N = C = case["n"]
    rng = np.random.default_rng(seed * 1000 + case["id"])
    F, T, K = 4, 60, e.kwargs["n_basis"]
    t = rng.random((N, F)) + 0.2
    v = rng.exponential(size=(N, T)) ** 2 + 0.01
    s = np.sqrt(t[:, :, None] * v[:, None, :]) * np.exp(2j * np.pi * rng.random((N, F, T)))
    A = mixing(case)
    A = A / np.linalg.norm(A, axis=1, keepdims=True)
    x = np.einsum("fcn,nft->cft", A, s)
    p = np.array(case["perm"]) - 1
    t, v, A, s = t[p], v[p], A[:, :, p], s[p]
    if e.kwargs.get("partitioning"):
        if K < N:
            return []
        own = np.arange(K) % N
        Z = np.clip(own[None] == np.arange(N)[:, None], 1e-3, None)
        st = dict(basis=(t / np.bincount(own, minlength=N)[:, None])[own].T, activation=v[own], latent=Z / Z.sum(0))
    else:
        w = rng.random((N, K)) + 0.2
        w = w / w.sum(1, keepdims=True)
        st = dict(basis=t[:, :, None] * w[:, None, :], activation=np.repeat(v[:, None, :], K, 1))
    if ev["fam"] == "mnmf":
        H = np.einsum("fcn,fdn->nfcd", A, A.conj()) + 1e-3 * np.eye(C)
        st["spatial"] = H / np.trace(H, axis1=-2, axis2=-1).real[..., None, None]
    else:
        st["diagonalizer"] = np.linalg.inv(A)
        st["spatial"] = np.tile(np.eye(C) + 1e-3, (F, 1, 1))
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            m, y = one(e, x, st, seed, {}, 1 + 3 * case["iter"])
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev, what=repr(ex)[:300])]
    if not np.isfinite(y).all():
        return [dict(ev, ev="model", finite=0, image=0)]
    return [dict(ev, ev="model", image=ppm(rel(y, A[:, 0, :].T[:, :, None] * s)))]


def job(a):
    return {"stay": stay, "near": near, "cold": cold, "mask": mask, "model": model}[a[0]](a[1:])


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("Separation", "Separation")
    if not ctx.quick:
        ctx.model("Separation", "SeparationBig", timeout=800)
    ctx.model("SeparationMask", "SeparationMask" if ctx.quick else "SeparationMaskBig")
    cases = ctx.generate("SeparationGen", "SeparationGen" if ctx.quick else "SeparationGenBig", extra=("-seed", str(ctx.seed)))
    jobs = []
    for name, e in sorted(wide().items()):
        fam, rule = fam_of(e), rule_of(e)
        if fam in ("mnmf", "mixture", "fastmnmf"):
            kind = "mask" if fam == "mixture" else "model"
            pool = [c for c in cases if not c["real"] and e.kwargs.get("n_sources") in (None, c["n"])]
            for c in rnd.sample(pool, min(len(pool), 3 if ctx.quick else 60)):
                jobs.append((kind, name, c, ctx.seed))
        if fam in ("mnmf", "mixture"):            # no demixing filter
            continue
        strict = fam in ("prox", "hva") or rule == "grad"
        pool = [c for c in cases if c["real"] == (e.kind == "real") and (c["unitary"] or not strict)
                and e.kwargs.get("n_sources") in (None, c["n"])]
        tags = ["plain"] if e.kind == "real" or fam in ("fastmnmf", "ipsdta") else ["plain", "restored", "restored"]
        if len(tags) > 1 and fam not in ("hva",):
            tags.append("mdp")
        if not pool:
            continue
        for c in rnd.sample(pool, min(len(pool), 4 if ctx.quick else 40)):
            jobs.append(("stay", name, c, ctx.seed, rnd.choice(tags)))
        if e.kind != "real" and fam in ("w", "fastiva", "hva"):
            for c in rnd.sample(pool, 2 if ctx.quick else 12):
                jobs.append(("near", name, c, ctx.seed))
    for name in COLD:
        for c in rnd.sample([c for c in cases if not c["real"]], 2 if ctx.quick else 12):
            jobs.append(("cold", name, c, ctx.seed))
    rnd.shuffle(jobs)
    evs = []
    for t in pmap(job, jobs):
        evs += t
    ctx.extra.update(runs=len(jobs), configurations=len({j[1] for j in jobs}),
                     by_kind={k: sum(v["ev"] == k for v in evs) for k in ("sep", "near", "cold", "mask", "model")})
    ctx.sample(evs[0])
    ctx.sample(evs[-1])
    ctx.validate("SeparationTrace", evs, ntraces=len(evs))
    ctx.assumptions += ["sources are drawn clearly super-Gaussian where approach is demanded", "agreement to 1e-6"]

"""C24: repeated and silent frames."""
import random
import warnings

import numpy as np

from c07 import FREE_PHASE, fam_of, one, rule_of, starting
from iterlib import data_for, has_loss, own_fault, plain_kwargs
from rt import pmap, q, rel
from runs import wide
from ssspy.algorithm import minimal_distortion_principle, projection_back
from ssspy.transform import pca, whiten

PARAMS = ("basis", "activation", "latent", "spatial", "mixing", "covariance", "posterior", "demix_filter", "diagonalizer")
FRAMED = ("activation", "posterior")


def expand(a, plan, quiet=0.0):
    """The frames of a plan (last axis); place 0 is filled with `quiet`."""
    p = np.array(plan)
    out = np.array(a)[..., np.maximum(p, 1) - 1]
    out[..., p == 0] = quiet
    return out


def phased(want, got):
    c = np.sum(got * want.conj(), axis=-1, keepdims=True)
    return want * c / np.maximum(np.abs(c), 1e-300)


def finite(m, out):
    every = [out] + [getattr(m, k) for k in PARAMS if isinstance(getattr(m, k, None), np.ndarray)]
    if getattr(m, "loss", None):
        every.append(np.array(m.loss, float))
    return int(all(np.isfinite(a).all() for a in every))


def events_of(args):
    name, case, seed, tag = args
    e = wide()[name]
    fam, rule, plan, T = fam_of(e), rule_of(e), case["plan"], case["t"]
    C = case["ch"]
    over = {}
    if tag == "plain":
        over = dict(plain_kwargs(e))
    elif "FDICA" in name:
        over = {"permutation_alignment": False}
    if e.kind == "real":
        rng = np.random.default_rng(seed)
        x = (rng.standard_normal((C, C)) + np.eye(C)) @ rng.laplace(size=(C, T))
    else:
        x = data_for(e, seed, n_ch=C, n_bins=4, n_frames=T)
    if fam in ("prox", "hva"):
        x = 0.7 * x / max(np.linalg.norm(x[:, b], 2) for b in range(x.shape[1]))
    ev = dict(ev="exc", start=1, key=f"{name}/{tag}/case{case['id']}:{case['shape']}/s{seed}", cls=e.cls.__name__, fam=fam,
              rule=rule, plan=plan, t=T)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            st = starting(e, x, seed)
            st2 = {k: expand(v, plan, 0.5) if k in FRAMED else v for k, v in st.items()}
            a, ya = one(e, x, st, seed, over, 3)
            b, yb = one(e, expand(x, plan), st2, seed, over, 3)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev, what=repr(ex)[:300])]
    silent = np.array(plan) == 0
    r = dict(ev, ev="pair", finite=finite(b, yb), y=0, par=0, loss=0, zero=0)
    if silent.any():
        r["zero"] = q(np.abs(yb[..., silent]).max() / max(np.abs(x).max(), 1e-300))
    want = expand(ya, plan)[..., ~silent]
    got = yb[..., ~silent]
    r["y"] = q(rel(got, phased(want, got) if rule in FREE_PHASE else want))
    for k in PARAMS:
        u, v = getattr(a, k, None), getattr(b, k, None)
        if not isinstance(u, np.ndarray) or (k == "demix_filter" and (rule in FREE_PHASE or fam in ("fastiva", "fastica"))):
            continue
        if k == "diagonalizer" and rule in FREE_PHASE:
            continue
        if k in FRAMED:
            u, v = expand(u, plan)[..., ~silent], v[..., ~silent]
        r["par"] = max(r["par"], q(rel(v, u)))
    if has_loss(e) and a.loss and b.loss:
        la, lb = np.array(a.loss, float), np.array(b.loss, float)
        r["loss"] = q(float("inf")) if len(la) != len(lb) else q(np.max(np.abs(lb - la) / np.maximum(1, np.abs(la))))
    return [r]


def fn_events(args):
    case, seed = args
    rng = np.random.default_rng(seed * 1000 + case["id"])
    plan, T, C = case["plan"], case["t"], case["ch"]
    silent = np.array(plan) == 0
    z = rng.standard_normal((C, 4, T)) + 1j * rng.standard_normal((C, 4, T))
    A = rng.standard_normal((4, C, C)) + 1j * rng.standard_normal((4, C, C))
    x = np.einsum("bcd,dbt->cbt", A, z * rng.random((C, 1, T)))
    w = rng.standard_normal((4, C, C)) + 1j * rng.standard_normal((4, C, C))
    y = np.einsum("bcd,dbt->cbt", w, x)
    out = []

    def add(fn, silence, f, g=lambda got, want: want):
        want, got = expand(f(x, y), plan)[..., ~silent], f(expand(x, plan), expand(y, plan))[..., ~silent]
        out.append(dict(ev="fn", start=1, key=f"{fn}/case{case['id']}:{case['shape']}", fn=fn, plan=plan, t=T, silence=silence,
                        y=q(rel(got, g(got, want)))))

    add("whiten", 0, lambda x, y: whiten(x))
    add("whiten-real", 0, lambda x, y: whiten(x.real[:, 0]))
    add("pca", 1, lambda x, y: pca(x), lambda got, want: phased(want, got))
    for ref in (None, 0, C - 1):
        add(f"projection_back-{ref}", 1, lambda x, y: np.moveaxis(np.atleast_1d(projection_back(y, reference=x, reference_id=ref)), 0, 0))
        add(f"minimal_distortion_principle-{ref}", 1, lambda x, y: minimal_distortion_principle(y, reference=x, reference_id=ref))
    return out


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("Frames", "Frames" if ctx.quick else "FramesBig")
    cases = ctx.generate("FramesGen", "FramesGen" if ctx.quick else "FramesGenBig", extra=("-seed", str(ctx.seed)))
    again = [c for c in cases if 0 not in c["plan"]]
    quiet = [c for c in cases if 0 in c["plan"]]
    jobs = []
    for name, e in sorted(wide().items()):
        n = 3 if ctx.quick else 12
        for i, c in enumerate(rnd.sample(again, n)):
            jobs.append((name, c, ctx.seed, "plain" if i % 3 == 0 else "restored"))
        for c in rnd.sample(quiet, 6 if ctx.quick else 25):
            jobs.append((name, c, ctx.seed + 1, "restored"))
    rnd.shuffle(jobs)
    evs = []
    for t in pmap(events_of, jobs):
        evs += t
    for t in pmap(fn_events, [(c, ctx.seed) for c in cases]):
        evs += t
    ctx.extra.update(pairs_of_runs=len(jobs), configurations=len({j[0] for j in jobs}),
                     function_events=sum(v["ev"] == "fn" for v in evs))
    ctx.sample(evs[0])
    ctx.sample(evs[-1])
    ctx.validate("FramesTrace", evs, ntraces=len(evs))
    ctx.assumptions += ["3 iterations, agreement to 1e-6", "agreement in the presence of silence only for the methods the specification lists"]

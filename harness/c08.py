"""C08: permutation solvers on exactly known activities, and the methods that use them."""
import functools
import random
import warnings

import numpy as np

from iterlib import catalogue, data_for, own_fault
from rt import pmap, rel

from ssspy.algorithm.permutation_alignment import (
    correlation_based_permutation_solver,
    score_based_permutation_solver,
)
from ssspy.bss import _solve_permutation as legacy
from ssspy.special.flooring import add_flooring, max_flooring

FLOOR = {"default": {}, "none": {"flooring_fn": None}, "add": {"flooring_fn": functools.partial(add_flooring, eps=1e-14)},
         "max": {"flooring_fn": functools.partial(max_flooring, eps=1e-13)}}


def perm_of(before, after):
    """1-based permutation per bin: row i of `after` is row perm[i] of `before` (exactly)."""
    out = []
    if np.shape(before) != np.shape(after):
        return []
    for b in range(len(before)):
        p = []
        for i in range(len(before[b])):
            hit = [j for j in range(len(before[b])) if np.array_equal(before[b][j], after[b][i])]
            p.append(hit[0] + 1 if len(hit) == 1 else 0)
        out.append(p)
    return out


def layout(a, kind):
    """The same values in another memory layout (writable)."""
    if kind == "c":
        return a.copy()
    if kind == "t":  # as methods pass it: a transposed view
        return a.copy().swapaxes(0, 1).copy().swapaxes(0, 1)
    if kind == "f":
        return np.array(a, order="F")
    big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
    big[tuple(slice(None, None, 2) for _ in a.shape)] = a
    return big[tuple(slice(None, None, 2) for _ in a.shape)]


def values(c, rng):
    """Real data with exactly the activity pattern of the case."""
    M = np.array(c["M"], float)
    B, N, T = M.shape
    if c["fn"] == "corr":
        scale = np.exp(rng.uniform(-6, 6, size=(B, 1, T)))
        phase = np.exp(2j * np.pi * rng.random((B, N, T)))
        # sources may share an activity, the values stay distinguishable through their phases
        y = M * scale * phase
        y = np.where(np.abs(y) == 0, 0, y)
        return y + 0j
    return M * np.exp(rng.uniform(-4, 4, size=(B, N, 1))) + rng.standard_normal((B, N, 1)) * 2


def companions(k, B, N, rng):
    lab = np.arange(B * N).reshape(B, N)
    pool = [lab[:, :, None].copy(), lab.copy() * 1.5, lab[:, :, None] + 1j * rng.standard_normal((B, N, 3)),
            (lab[:, :, None, None] + rng.standard_normal((B, N, 2, 2)))]
    rng.shuffle(pool)
    return pool[:k]


def solve_event(args):
    c, var = args
    rng = np.random.default_rng([c["id"], var["v"]])
    y = values(c, rng)
    B, N, _ = y.shape
    comp = companions(var["ncomp"], B, N, rng)
    key = f"solve/{c['fn']}/{c['kind']}/n{N}/b{B}/case{c['id']}/{var['name']}"
    ev = dict(ev="solve", start=1, key=key, fn=c["fn"], kind=c["kind"], g=c["g"], l=c["l"], M=c["M"], ncomp=var["ncomp"],
              stays=1)
    seq = layout(y, var["lay"])
    args_ = [layout(a, var["lay"]) for a in comp]
    if var.get("real") and c["fn"] == "corr":
        seq = np.abs(seq)
    ref = seq.copy()
    kw = dict(FLOOR[var["floor"]])
    if c["fn"] == "score":
        kw.update(global_iter=c["g"], local_iter=c["l"])
        f = score_based_permutation_solver
    else:
        f = correlation_based_permutation_solver if var["v"] % 3 else legacy.correlation_based_permutation_solver
    if var["ow"] is not None:
        kw["overwrite"] = var["ow"]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = f(seq, *args_, **kw)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev="exc", start=1, key=key, what=repr(ex)[:200])]
    if var["ncomp"] == 0:
        yo, co = out, ()
    elif var["ncomp"] == 1:
        yo, co = out[0], (out[1],)
    else:
        yo, co = out[0], tuple(out[1])
    ev["perm"] = perm_of(ref, np.asarray(yo))
    if var.get("real") and c["fn"] == "corr" or any(0 in p for p in ev["perm"]):
        # equal values: the companions tell which of the equal rows went where
        if co:
            p = perm_of(comp[0], np.asarray(co[0]))
            if p and not any(0 in x for x in p) and all(
                    np.array_equal(ref[b][np.array(p[b]) - 1], yo[b]) for b in range(B)):
                ev["perm"] = p
        else:
            return []
    ev["comp"] = [perm_of(a, np.asarray(o)) for a, o in zip(comp, co)]
    if var["ow"] is False:
        kept = np.array_equal(seq, ref) and all(np.array_equal(a, o) for a, o in zip(args_, comp))
        kept = kept and not np.shares_memory(yo, seq)
    else:
        kept = np.array_equal(seq, yo) and all(np.array_equal(a, o) for a, o in zip(args_, co))
    ev["kept"] = int(bool(kept))
    return [ev]


def reject_event(args):
    fn, pos, shape_case, seed = args
    rng = np.random.default_rng(seed)
    y = rng.standard_normal((3, 2, 5)) + 5
    good = np.arange(6).reshape(3, 2, 1)
    bad = {"bins": np.zeros((4, 2, 1)), "srcs": np.zeros((3, 3, 1)), "swap": np.zeros((2, 3, 1))}[shape_case]
    f = correlation_based_permutation_solver if fn == "corr" else score_based_permutation_solver
    lst = [good] * pos + [bad]
    key = f"reject/{fn}/{pos}/{shape_case}"
    try:
        f(y.copy(), *lst)
        raised = 0
    except Exception:  # noqa: BLE001
        raised = 1
    return [dict(ev="reject", start=1, key=key, raised=raised)]


# ------------------------------------------------------------------ methods
def source_major(a):
    return np.moveaxis(np.asarray(a), 0, 1)


def fdica_event(args):
    name, seed, n_ch, scale, iters = args
    e = catalogue()[name]
    x = data_for(e, seed, n_ch=n_ch, n_bins=6, n_frames=30)
    key = f"method/{name}/c{n_ch}/{scale}/it{iters}/s{seed}"
    if iters == 0:  # the identity filter has no scale to restore for other channels
        scale = False
    kw = dict(scale_restoration=scale)
    try:
        m0 = e.build(seed, permutation_alignment=False, **kw)
        y0 = np.array(m0(x.copy(), n_iter=iters))
        aligned = dict(permutation_alignment="spectrogram_correlation") if seed % 2 else dict(permutation_alignment=True)
        m1 = e.build(seed, **aligned, **kw)
        y1 = np.array(m1(x.copy(), n_iter=iters))
        plain = e.build(seed, permutation_alignment=False, scale_restoration=False)
        yp = np.array(plain(x.copy(), n_iter=iters))
        lab = np.arange(x.shape[1] * n_ch).reshape(x.shape[1], n_ch, 1)
        _, po = correlation_based_permutation_solver(source_major(yp).copy(), lab.copy(), overwrite=False)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev="exc", start=1, key=key, what=repr(ex)[:200])]
    perm = perm_of(lab, po)
    comp = [near_perm(source_major(y0), source_major(y1)), near_perm(m0.demix_filter, m1.demix_filter),
            near_perm(source_major(m0.output), source_major(m1.output))]
    kept = loss_equal(m0.loss, m1.loss)
    return [dict(ev="method", start=1, key=key, n=n_ch, nb=int(x.shape[1]), perm=perm, comp=comp, ncomp=3, kept=kept)]


def loss_equal(a, b):
    return int(len(a) == len(b) and all(abs(p - q) <= 1e-9 * max(1, abs(p)) for p, q in zip(a, b)))


def near_perm(before, after, tol=1e-9):
    before, after = np.asarray(before), np.asarray(after)
    if before.shape != after.shape:
        return []
    out = []
    for b in range(len(before)):
        p = []
        for i in range(before.shape[1]):
            d = [rel(before[b][j], after[b][i]) for j in range(before.shape[1])]
            hit = [j for j, v in enumerate(d) if v <= tol]
            p.append(hit[0] + 1 if len(hit) == 1 else 0)
        out.append(p)
    return out


def cacgmm_event(args):
    mode, seed, n_ch, n_src, kw, iters = args
    e = catalogue()["CACGMM/False"]
    x = data_for(e, seed, n_ch=n_ch, n_bins=7, n_frames=30)
    key = f"method/CACGMM/{mode}/c{n_ch}n{n_src}/{sorted(kw.items())}/it{iters}/s{seed}".replace(" ", "")
    ref = seed % n_ch
    try:
        m0 = e.build(seed, n_sources=n_src, reference_id=ref)
        y0 = np.array(m0(x.copy(), n_iter=iters))
        m1 = e.build(seed, n_sources=n_src, permutation_alignment=mode, reference_id=ref, **kw)
        y1 = np.array(m1(x.copy(), n_iter=iters))
        F = x.shape[1]
        lab = np.arange(F * n_src).reshape(F, n_src, 1)
        if mode in (True, "posterior_score"):
            target = source_major(m0.posterior).copy()
        else:
            target = np.abs(source_major(y0))
        if mode == "amplitude_correlation":
            _, po = correlation_based_permutation_solver(target, lab.copy())
        else:
            _, po = score_based_permutation_solver(target, lab.copy(), **kw)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev="exc", start=1, key=key, what=repr(ex)[:200])]
    perm = perm_of(lab, po)
    comp = [near_perm(source_major(getattr(m0, k)), source_major(getattr(m1, k)))
            for k in ("mixing", "covariance", "posterior", "output")]
    comp.append(near_perm(source_major(y0), source_major(y1)))
    return [dict(ev="method", start=1, key=key, n=n_src, nb=F, perm=perm, comp=comp, ncomp=5,
                 kept=loss_equal(m0.loss, m1.loss))]


VARIANTS = [
    dict(name="default", ncomp=1, lay="c", floor="default", ow=None),
    dict(name="copy", ncomp=2, lay="t", floor="none", ow=False),
    dict(name="inplace-strided", ncomp=3, lay="s", floor="add", ow=True),
    dict(name="alone", ncomp=0, lay="f", floor="max", ow=False),
    dict(name="alone-inplace", ncomp=0, lay="t", floor="default", ow=True),
    dict(name="real", ncomp=4, lay="f", floor="default", ow=True, real=True),
    dict(name="fortran", ncomp=1, lay="f", floor="max", ow=False),
]
for _i, _v in enumerate(VARIANTS):
    _v["v"] = _i


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("AlignMC", "Align2")
    ctx.model("AlignMC", "Align3")
    cases = ctx.generate("AlignGen", "AlignGen" if ctx.quick else "AlignGenBig", extra=("-seed", str(ctx.seed)))
    jobs = []
    for c in cases:
        vs = rnd.sample(VARIANTS, 3) if ctx.quick else VARIANTS
        for v in vs:
            jobs.append((c, v))
    evs = []
    for t in pmap(solve_event, jobs):
        evs += t
    rej = [(f, p, s, 0) for f in ("corr", "score") for p in (0, 1, 2) for s in ("bins", "srcs", "swap")]
    for t in pmap(reject_event, rej):
        evs += t
    names = [n for n in sorted(catalogue()) if "FDICA" in n]
    fj, cj = [], []
    for k in range(1 if ctx.quick else 6):
        for i, n in enumerate(names):
            for n_ch in (2, 3) if k == 0 else (3, 4):
                fj.append((n, ctx.seed + k + i + n_ch, n_ch, [False, True, "projection_back", "minimal_distortion_principle"][(i + n_ch + k) % 4],
                           [0, 1, 4][(i + k) % 3]))
        for i, mode in enumerate([True, "posterior_score", "amplitude_score", "amplitude_correlation"]):
            for n_ch, n_src in ((2, 2), (3, 3), (3, 2), (2, 3)):
                kws = [{}] if mode == "amplitude_correlation" else [{}, {"global_iter": 3, "local_iter": 2}]
                for kw in kws:
                    cj.append((mode, ctx.seed + 7 * k + i, n_ch, n_src, kw, 1 + (i + k + n_ch) % 4))
    for t in pmap(fdica_event, fj):
        evs += t
    for t in pmap(cacgmm_event, cj):
        evs += t
    ctx.extra.update(cases=len(cases), solver_runs=len(jobs), fdica_runs=len(fj), cacgmm_runs=len(cj))
    ctx.sample(cases[0])
    ctx.sample(evs[0])
    ctx.validate("AlignTrace", evs, chunk=120)
    ctx.assumptions += ["activities with exactly equal scores may be resolved either way",
                        "score solver: cases with more than 40 tied outcomes are only checked for reordering"]

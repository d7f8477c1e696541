"""C20: the recorded loss is the documented objective at the parameters of that evaluation."""
import math
import random

import numpy as np

from catalog import Entry, fdica_dcontrast, iva_dcontrast_s
from iterlib import own_fault, plain_kwargs, saved_params
from objective import dof, family, filter_of, ingredients
from rt import pmap, q
from runs import SHAPES, follow, options, wide
from ssspy.bss.admmbss import ADMMBSS
from ssspy.bss.fdica import AuxFDICA, GradFDICA, NaturalGradFDICA
from ssspy.bss.ica import GradICA, NaturalGradICA
from ssspy.bss.ilrma import GaussILRMA
from ssspy.bss.iva import AuxIVA, GradIVA, NaturalGradIVA
from ssspy.bss.mnmf import FastGaussMNMF
from ssspy.bss.pdsbss import PDSBSS

UNITS = 10**7
TAGS = ("plain", "default", "nofloor", "lastref", "mdp")


def relq(a, b):
    return q(abs(a - b) / max(1.0, abs(a), abs(b)))


def bookkeeping(e, m, seed, x):
    """The same state held by an object that keeps (or does not keep) an explicit filter."""
    sp = str(e.kwargs.get("spatial_algorithm", ""))
    if not sp or sp in ("IPA",) and family(e) not in ("gauss", "tf"):
        return 0
    if not (sp.startswith("ISS") or sp == "IPA"):
        return 0
    kw = {k: v for k, v in saved_params(m).items() if k != "output"}
    kw["demix_filter"] = filter_of(m)
    other = e.build(seed, spatial_algorithm="IP1", record_loss=True, pair_selector=None, **plain_kwargs(e)) \
        if "pair_selector" in e.kwargs else e.build(seed, spatial_algorithm="IP1", record_loss=True, **plain_kwargs(e))
    if "Gauss" in e.cls.__name__ and "IVA" in e.cls.__name__:
        return 0                                     # the variance is not an initial parameter
    if e.kwargs.get("normalization", True) and "ILRMA" in e.cls.__name__:
        other.normalization = False
    other(x.copy(), n_iter=0, **kw)
    return relq(other.loss[-1], m.loss[-1])


def events_of(args):
    name, shape, seed, over_tag, n_iter, gain = args
    e = wide()[name]
    fam = family(e)
    over = options(e, over_tag)
    key = f"run/{name}/c{shape['n_ch']}f{shape['n_bins']}/{over_tag}/x{gain}/s{seed}"
    evs = []

    def visit(m, k):
        loss = m.loss[-1] if m.loss else float("nan")
        ev = dict(ev="run", fam=fam, key=f"{key}/i{k}", dof=dof(e), bins=shape["n_bins"], float=int(type(loss) is float),
                  finite=int(isinstance(loss, float) and math.isfinite(loss)), recorded=int(m.loss is not None and len(m.loss) == k + 1), book=0)
        g = ingredients(e, m)
        if not all(abs(v) < 1e12 for v in g.values()):
            evs.append(dict(ev="skip", key=f"{key}/i{k}"))
            return
        u = max([abs(v) for v in g.values()] + [1e-3, abs(loss) / 20 if ev["finite"] else 0]) / UNITS
        ev["ing"] = {a: round(v / u) for a, v in g.items()}
        ev["loss"] = round(loss / u) if ev["finite"] else 0
        ev["again"] = 0 if not ev["finite"] else relq(m.compute_loss(), loss)
        if k in (0, n_iter):
            ev["book"] = bookkeeping(e, m, seed, np.array(m.input))
        evs.append(ev)

    try:
        follow(e, seed, shape, n_iter, visit, over, gain=gain)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        if over_tag == "nofloor" or gain != 1:
            evs.append(dict(ev="skip", key=key))      # singular without the flooring the method documents
        else:
            evs.append(dict(ev="exc", key=key, what=repr(ex)[:300]))
    return evs


# ------------------------------------------------------------------ exact states
def l1_bin(y):
    return np.abs(y.real) + np.abs(y.imag)


def l1_vec(y):
    return np.sum(l1_bin(y), axis=1)


def l2_vec(y):
    return np.sum(np.abs(y) ** 2, axis=1)


def l1_pen(y):
    return np.sum(l1_bin(y))


def ident(y, step_size=1):
    return y


def exact_entries():
    z = dict(scale_restoration=False)
    zf = dict(z, permutation_alignment=False)
    E = []
    for c in (GradFDICA, NaturalGradFDICA):
        E.append((Entry(c.__name__, c, dict(contrast_fn=l1_bin, score_fn=ident, **zf)), "l1", True))
    E.append((Entry("AuxFDICA", AuxFDICA, dict(contrast_fn=l1_bin, d_contrast_fn=fdica_dcontrast, **zf)), "l1", True))
    for c in (GradIVA, NaturalGradIVA):
        E.append((Entry(c.__name__, c, dict(contrast_fn=l1_vec, score_fn=ident, **z)), "l1", True))
        E.append((Entry(c.__name__ + "/l2", c, dict(contrast_fn=l2_vec, score_fn=ident, **z)), "l2", True))
    for sp in ("IP1", "IP2", "ISS1", "ISS2", "IPA"):
        E.append((Entry("AuxIVA/" + sp, AuxIVA, dict(contrast_fn=l1_vec, d_contrast_fn=iva_dcontrast_s, spatial_algorithm=sp, **z)), "l1", True))
        E.append((Entry("GaussILRMA/" + sp, GaussILRMA, dict(n_basis=2, spatial_algorithm=sp, **z)), "l2", True))
    E.append((Entry("GaussILRMA/part", GaussILRMA, dict(n_basis=2, partitioning=True, domain=1, **z)), "l2", True))
    E.append((Entry("FastGaussMNMF", FastGaussMNMF, dict(n_basis=2)), "l2", True))
    E.append((Entry("PDSBSS", PDSBSS, dict(penalty_fn=l1_pen, prox_penalty=ident, record_loss=True, **z)), "l1", False))
    E.append((Entry("ADMMBSS", ADMMBSS, dict(penalty_fn=l1_pen, prox_penalty=ident, record_loss=True, **z)), "l1", False))
    return E


def exact_params(e, n, nb, t, W):
    kw = {"demix_filter": W}
    nm = e.cls.__name__
    if nm in ("GaussILRMA", "FastGaussMNMF"):
        if e.kwargs.get("partitioning"):
            kw.update(latent=np.full((n, 2), 0.5), basis=np.full((nb, 2), 2.0), activation=np.full((2, t), 0.5))
        else:
            kw.update(basis=np.full((n, nb, 2), 0.25), activation=np.full((n, 2, t), 2.0))
        e.kwargs["normalization"] = False
    if nm == "FastGaussMNMF":
        kw["diagonalizer"] = kw.pop("demix_filter")
        kw["spatial"] = np.full((nb, n, n), 1.0 / n)
    return kw


def cmat(M):
    return np.array(M, float)[..., 0] + 1j * np.array(M, float)[..., 1]


def exact_events(case):
    n, nb, t = case["n"], case["nb"], case["t"]
    W = np.stack([cmat(w) for w in case["W"]])
    x = np.stack([cmat(w) for w in case["X"]], axis=1)
    evs = []
    for e, fn, mean in exact_entries():
        kw = exact_params(e, n, nb, t, W)
        m = e.build(0)
        try:
            m(x.copy(), n_iter=0, **kw)
        except Exception as ex:  # noqa: BLE001
            if own_fault(ex):
                raise
            evs.append(dict(ev="exc", key=f"exact/{e.name}/case{case['id']}", what=repr(ex)[:300]))
            continue
        v = m.loss[-1] * (t if mean else 1)
        evs.append(dict(ev="exact", key=f"exact/{e.name}/case{case['id']}", fn=fn, W=case["W"], X=case["X"],
                        got=int(round(v)) if np.isfinite(v) else -1, resid=q(abs(v - round(v)) / max(1, abs(v))) if np.isfinite(v) else 10**9))
    xr, Wr = x[:, 0].real, None
    for c in (GradICA, NaturalGradICA):                 # real signals: the permutation part only
        P = np.eye(n)[np.argsort([abs(w).argmax() for w in W[0]], kind="stable")]
        m = c(contrast_fn=np.abs, score_fn=np.sign)
        m(xr.copy(), n_iter=0, demix_filter=P)
        v = m.loss[-1] * t
        real = [[[int(a), 0] for a in row] for row in xr]
        evs.append(dict(ev="exact", key=f"exact/{c.__name__}/case{case['id']}", fn="l1", W=[[[[int(a), 0] for a in row] for row in P]],
                        X=[real], got=int(round(v)), resid=q(abs(v - round(v)) / max(1, abs(v)))))
    return evs


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("Objective", "Objective" if ctx.quick else "ObjectiveBig", timeout=800)
    cases = ctx.generate("ScaleGen", "ScaleGen" if ctx.quick else "ScaleGenBig", extra=("-seed", str(ctx.seed + 20)))
    cases = cases[:40] if ctx.quick else cases
    jobs = []
    for name, e in sorted(wide().items()):
        if family(e) is None:
            continue
        tags = [t for t in TAGS if options(e, t) is not None]
        for s in SHAPES:
            for tag in tags if not ctx.quick else (rnd.choice(tags),):
                for k in range(1 if ctx.quick else 4):
                    gain = 1 if family(e) in ("mnmf", "mixture", "penalty") or "Grad" in name else rnd.choice([1, 1, 1, 30, 0.03])
                    jobs.append((name, s, ctx.seed + k, tag, 3 if ctx.quick or tag == "nofloor" or "GaussIVA" in name else 8, gain))
    rnd.shuffle(jobs)
    evs = []
    for t in pmap(events_of, jobs):
        evs += t
    for t in pmap(exact_events, cases):
        evs += t
    skipped = [v for v in evs if v["ev"] == "skip"]
    evs = [v for v in evs if v["ev"] != "skip"]
    ctx.extra.update(degenerate_states_skipped=len(skipped), skipped_sample=[v["key"] for v in skipped[:5]])
    ctx.extra.update(runs=len(jobs), exact_cases=len(cases), configurations=len({j[0] for j in jobs}))
    ctx.sample(evs[0])
    ctx.sample(evs[-1])
    ctx.validate("ObjectiveTrace", evs, ntraces=len(jobs) + len(cases))
    ctx.assumptions += ["ingredients (data term, log-determinants, penalties) are measured in floating point from the public "
                        "parameters; the specification holds which of them enter the objective and with which weight",
                        "agreement to 4e-7 of the largest ingredient"]

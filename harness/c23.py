"""C23: supported requests are carried out, unsupported ones are refused, nothing in between."""
import os
import shutil
import tempfile
import warnings

import numpy as np

import catalog as cat
from funcs import cplx, real, spd
from rt import pmap
from ssspy import algorithm, io, linalg, special, transform
from ssspy.algorithm.permutation_alignment import (
    correlation_based_permutation_solver,
    score_based_permutation_solver,
)
from ssspy.bss import admmbss, cacgmm, fdica, hva, ica, ilrma, ipsdta, iva, mnmf, pdsbss
from ssspy.linalg import prox
from ssspy.linalg.lqpqm import lqpqm2

MODULES = (ica, fdica, iva, ilrma, ipsdta, mnmf, cacgmm, pdsbss, admmbss, hva)
BOOL = {"True": True, "False": False, "None": None}
HOLONOMIC = dict(step_size=0.05)
FAMILY = {
    "ICA": dict(contrast_fn=cat.ica_contrast, score_fn=cat.ica_score, d_score_fn=cat.ica_dscore),
    "FDICA": dict(contrast_fn=cat.fdica_contrast, score_fn=cat.fdica_score, d_contrast_fn=cat.fdica_dcontrast),
    "IVA": dict(contrast_fn=cat.iva_contrast_s, score_fn=cat.iva_score_s, d_contrast_fn=cat.iva_dcontrast_s,
                dd_contrast_fn=cat.iva_ddcontrast_s, prox_penalty=cat.iva_prox_p),
    "BSS": dict(prox_penalty=cat.l21_prox, mask_fn=cat.lap_mask),
}
NEEDS = {
    "contrast_fn": ("GradICA", "NaturalGradICA", "FastICA", "GradFDICA", "NaturalGradFDICA", "AuxFDICA", "GradIVA", "NaturalGradIVA",
                    "FastIVA", "FasterIVA", "AuxIVA", "PDSIVA", "ADMMIVA"),
    "score_fn": ("GradICA", "NaturalGradICA", "FastICA", "GradFDICA", "NaturalGradFDICA", "GradIVA", "NaturalGradIVA"),
    "d_score_fn": ("FastICA",),
    "d_contrast_fn": ("AuxFDICA", "FasterIVA", "AuxIVA", "FastIVA"),
    "dd_contrast_fn": ("FastIVA",),
    "prox_penalty": ("PDSIVA", "ADMMIVA", "PDSBSS", "ADMMBSS"),
    "mask_fn": ("MaskingPDSBSS", "MaskingADMMBSS"),
}


def find(name):
    for m in MODULES:
        if hasattr(m, name):
            return getattr(m, name)
    raise LookupError(name)


def family(k):
    return next(f for f in ("FDICA", "IVA", "ICA", "BSS", "") if k.endswith(f))


def lambda_floor(x):
    return np.maximum(x, 1e-10)


def arguments(k, r, seed, n_ch):
    """keyword arguments of the constructor for an abstract request"""
    kw = {}
    for p, ks in NEEDS.items():
        if k in ks:
            kw[p] = None if r.get("fn") == p else FAMILY[family(k)][p]
    if k.startswith(("Grad", "NaturalGrad")):
        kw["step_size"] = 0.02
    if "ILRMA" in k or "IPSDTA" in k or "MNMF" in k:
        kw["n_basis"] = 2 * n_ch if r.get("part") == "True" else 2
        kw["rng"] = np.random.default_rng(seed)
    if k == "CACGMM":
        kw["rng"] = np.random.default_rng(seed)
    if "IPSDTA" in k:
        kw["n_blocks"] = 2
    if k in ("TILRMA", "TIPSDTA"):
        kw["dof"] = 6
    for s, v in r.items():
        if s == "sp":
            kw["diagonalizer_algorithm" if k == "FastGaussMNMF" else "spatial_algorithm"] = "nonsense" if v == "other" else v
        elif s == "src":
            kw["source_algorithm"] = "nonsense" if v == "other" else v
        elif s == "dom":
            kw["domain"] = float(v)
        elif s == "beta":
            kw["beta"] = float(v)
        elif s in ("part", "norm", "perm", "scale"):
            name = dict(part="partitioning", norm="normalization", perm="permutation_alignment", scale="scale_restoration")[s]
            kw[name] = "nonsense" if v == "other" else BOOL.get(v, v)
        elif s == "ref":
            kw["reference_id"] = {"0": 0, "1": 1, "None": None, "beyond": n_ch + 3}[v]
        elif s == "kw" and v != "none":
            kw["no_such_option" if v == "unknown" else v] = v != "lqpqm_normalization" and 2
        elif s == "pen":
            masked = k.startswith("Masking")
            if v in ("list", "longer"):
                kw["penalty_fn"] = [cat.l21_penalty, cat.l1_penalty][:1 if v == "list" else 2]
                if not masked:
                    kw["prox_penalty"] = kw["prox_penalty"] and [cat.l21_prox]
            else:
                kw["penalty_fn"] = {"one": cat.l21_penalty, "None": None, "notafunction": 5}[v]
        elif s == "rec":
            kw["record_loss"] = BOOL[v]
        elif s == "relax" and v != "default":
            if v in ("relaxation", "both"):
                kw["relaxation"] = 0.8
            if v in ("alpha", "both"):
                kw["alpha"] = 0.9
        elif s == "floor" and v != "default":
            kw["flooring_fn"] = {"None": None, "lambda": lambda_floor, "notafunction": 7}[v]
    return kw


def mixture(k, seed, n_ch):
    if family(k) == "ICA":
        return cat.real_mixture(seed, n_ch, 60)
    x = cat.tf_mixture(seed, n_ch=n_ch, n_bins=4, n_frames=18)
    if k.startswith(("PDS", "HVA", "MaskingPDS")):
        x = 0.7 * x / max(np.linalg.norm(x[:, f], 2) for f in range(x.shape[1]))
    return x


def finite(v):
    vs = v if isinstance(v, (tuple, list)) else [v]
    return int(all(np.all(np.isfinite(np.asarray(a))) for a in vs))


def class_event(args):
    c, i, seed = args
    k, r, n = c["cls"], c["req"], c["n"]
    n_ch = 2 + (i + seed) % 2
    x = mixture(k, seed, n_ch)
    given = x.copy()
    call = {}
    if "ADMM" in k:
        call["auxiliary1"] = np.tile(np.eye(n_ch, dtype=complex), (x.shape[1], 1, 1))
    key = f"{k}/" + ",".join(f"{s}={v}" for s, v in sorted(r.items())) + f"/n{n}/c{n_ch}"
    ev = dict(ev="try", start=1, kind="class", cls=k, req=r, n=n, key=key, finite=1, outcome="returned", why="")
    cls, kw = find(k), arguments(k, r, seed, n_ch)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            m = cls(**kw)
            out = m(given, n_iter=n, **call)
            ev["finite"] = finite(out)
        except Exception as ex:  # noqa: BLE001
            ev.update(outcome="refused", why=repr(ex)[:160])
    ev["kept"] = int(np.array_equal(x, given))
    return ev


# ----------------------------------------------------------------- functions
def fn_whiten(c, r, f):
    shape = {1: (12,), 2: (3, 12), 3: (3, 4, 12), 4: (2, 3, 4, 12), 5: (2, 2, 3, 4, 12)}[c["a"]]
    return f((cplx if c["b"] else real)(r, *shape))


def sequence(c, r):
    shape = {2: (3, 8), 3: (5, 3, 8), 4: (2, 5, 3, 8)}[c["a"]]
    x = np.abs(real(r, *shape)) + 0.1
    if c["b"] == 0:
        return x, ()
    s = list(shape) + [4]
    if c["b"] == 2:
        s[0] += 1
    if c["b"] == 3:
        s[1] += 1
    return x, (real(r, *s),)


def fn_write(c, r):
    d = tempfile.mkdtemp(prefix="verif_c23_")
    try:
        path, x = os.path.join(d, "a.wav"), np.clip(real(r, 20), -0.9, 0.9)
        if c["fn"] == "write-ext":
            path = os.path.join(d, ("a.wav", "a.mp3", "a.WAVE", "a")[c["a"]])
        elif c["fn"] == "write-shape":
            x = np.clip(real(r, *{1: (20,), 2: (c["b"], 20), 3: (2, c["b"], 20)}[c["a"]]), -0.9, 0.9)
        else:
            x = (100 * x).astype(("f4", "f8", "i2", "c16", "u2", "?", "U3")[c["a"]])
        kw = {"channels_first": True} if c["fn"] == "write-shape" and x.ndim == 2 else {}
        io.wavwrite(path, x, sample_rate=16000, **kw)
        y, rate = io.wavread(path)
        return y
    finally:
        shutil.rmtree(d)


def apply(c, r):
    n = c["fn"]
    if n == "whiten":
        return fn_whiten(c, r, transform.whiten)
    if n == "pca":
        return fn_whiten(c, r, transform.pca)
    if n == "eigh":
        return linalg.eigh(spd(r, 2, 3), spd(r, 2, 3), type=c["a"])
    if n == "eigh2":
        return linalg.eigh2(spd(r, 3, 2), spd(r, 3, 2), type=c["a"])
    if n == "gmeanmh":
        return linalg.gmeanmh(spd(r, 2, 3), spd(r, 2, 3), type=c["a"])
    if n == "inv2":
        return linalg.inv2(cplx(r, 4, c["a"], c["b"]))
    if n == "eigh2-size":
        z = cplx(r, 4, c["a"], c["b"])
        return linalg.eigh2(spd(r, 4, c["a"]) if c["a"] == c["b"] else z)
    if n == "to_psd":
        return special.to_psd(cplx(r, 3, 3, 3), axis1=c["a"], axis2=c["b"])
    if n == "neg_log":
        x = np.abs(real(r, 3, 4)) + 0.1
        x[1, 2] = (-0.5, 0.0, 0.5)[c["a"]]
        return prox.neg_log(x, step_size=0.7)
    if n == "correlation":
        x, rest = sequence(c, r)
        return correlation_based_permutation_solver(x, *rest, overwrite=False)
    if n == "score":
        x, rest = sequence(c, r)
        return score_based_permutation_solver(x, *rest, overwrite=False)
    if n == "score-centroids":
        return score_based_permutation_solver(np.abs(real(r, 5, 3, 8)) + 0.1, overwrite=False, multi_centroids=bool(c["a"]))
    if n.startswith("write-"):
        return fn_write(c, r)
    if n == "lqpqm2":
        kw = ({}, {"singular_fn": lambda v: np.abs(v) < 1e-10}, {"singular_fn": 3})[c["a"]]
        return lqpqm2(spd(r, 3, 2), cplx(r, 3, 2), np.abs(real(r, 3)) + 0.5, **kw)
    raise LookupError(n)


def fn_event(args):
    c, i, seed = args
    ev = dict(ev="try", start=1, kind="fn", fn=c["fn"], a=c["a"], b=c["b"], key=f"{c['fn']}/{c['a']}/{c['b']}", finite=1,
              outcome="returned", why="", kept=1)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            out = apply(c, np.random.default_rng(seed * 1000 + i))
            ev["finite"] = finite(out)
        except LookupError:
            raise
        except Exception as ex:  # noqa: BLE001
            ev.update(outcome="refused", why=repr(ex)[:160])
    return ev


def event(args):
    return (class_event if args[0]["k"] == "class" else fn_event)(args)


def run(ctx):
    ctx.model("Admissible", "Admissible" if ctx.quick else "AdmissibleBig")
    cases = ctx.generate("AdmissibleGen", "AdmissibleGen" if ctx.quick else "AdmissibleGenBig", extra=("-seed", str(ctx.seed)))
    evs = pmap(event, [(c, i, ctx.seed) for i, c in enumerate(cases)])
    ctx.extra.update(requests=len(evs), classes=len({e["cls"] for e in evs if e["kind"] == "class"}),
                     functions=sum(e["kind"] == "fn" for e in evs),
                     returned=sum(e["outcome"] == "returned" for e in evs), refused=sum(e["outcome"] == "refused" for e in evs))
    ctx.sample(evs[0])
    ctx.sample(evs[-1])
    ctx.validate("AdmissibleTrace", evs)
    ctx.assumptions += ["a refusal is an exception of any type, raised anywhere between construction and return"]

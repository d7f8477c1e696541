"""C16: equivalent configurations, as rewriting walks of the specification."""
import functools
import importlib
import inspect
import warnings

import numpy as np

import catalog as cat
from iterlib import own_fault, snap
from rt import pmap, q, rel
from ssspy.bss import _flooring as old_flooring
from ssspy.bss import _psd as old_psd
from ssspy.bss import _select_pair as old_pair
from ssspy.bss import _solve_permutation as old_perm
from ssspy.special import flooring as fl
from ssspy.utils import select_pair as sel

CLS = {k: v for k, v in vars(cat).items() if inspect.isclass(v)}
BIG = 1e8


# ------------------------------------------------------------------ source models given to generic classes
def gauss_contrast(y):
    v = np.mean(np.abs(y) ** 2, axis=1)
    return y.shape[1] * np.log(v) + y.shape[1]


def gauss_score(y):
    return y / np.mean(np.abs(y) ** 2, axis=1, keepdims=True)


MODELS = {
    ("ica", "laplace"): dict(contrast_fn=np.abs, score_fn=np.sign),
    ("ica", "smooth"): dict(contrast_fn=cat.ica_contrast, score_fn=cat.ica_score),
    ("fdica", "laplace"): dict(contrast_fn=cat.fdica_contrast_lap, score_fn=cat.fdica_score_lap),
    ("fdica", "smooth"): dict(contrast_fn=cat.fdica_contrast, score_fn=cat.fdica_score),
    ("auxfdica", "laplace"): dict(contrast_fn=cat.fdica_contrast_lap, d_contrast_fn=cat.fdica_dcontrast_lap),
    ("auxfdica", "smooth"): dict(contrast_fn=cat.fdica_contrast, d_contrast_fn=cat.fdica_dcontrast),
    ("iva", "laplace"): dict(contrast_fn=cat.iva_contrast, score_fn=cat.iva_score),
    ("iva", "smooth"): dict(contrast_fn=cat.iva_contrast_s, score_fn=cat.iva_score_s),
    ("iva", "gauss"): dict(contrast_fn=gauss_contrast, score_fn=gauss_score),
    ("auxiva", "laplace"): dict(contrast_fn=cat.iva_contrast, d_contrast_fn=cat.iva_dcontrast),
    ("auxiva", "smooth"): dict(contrast_fn=cat.iva_contrast_s, d_contrast_fn=cat.iva_dcontrast_s),
}


def hva_mask(y, gamma=None, n_iter=1):
    """The harmonic-vector-analysis mask by its published definition."""
    n = y.shape[0]
    z = np.log(np.maximum(np.abs(y), 1e-10))
    mean = z.mean(axis=1, keepdims=True)
    F = y.shape[1]
    N = 2 * (F - 1)
    w = np.full(F, 2.0)
    w[0] = w[-1] = 1.0                                         # one-sided spectrum of a real even sequence
    D = np.cos(2 * np.pi * np.outer(np.arange(F), np.arange(F)) / N) * w
    nu = np.einsum("kf,nft->nkt", D, z - mean) / N
    s = np.minimum(1, nu)
    for _ in range(n_iter):
        s = (1 - np.cos(np.pi * s)) / 2
    v = np.exp(2 * (np.einsum("kf,nft->nkt", D, s * nu) + mean))
    return (v / v.sum(axis=0)) ** (1 / n if gamma is None else gamma)


def prox_of(mask):
    return lambda y, step_size=1: mask(y) * y


PEN = {"l21": (cat.l21_penalty, cat.l21_prox), "[l21]": ([cat.l21_penalty], [cat.l21_prox]),
       "lap": (cat.l21_penalty, prox_of(cat.lap_mask)), "hva": (cat.l21_penalty, prox_of(hva_mask))}
FLOOR = {"spelled": functools.partial(fl.max_flooring, eps=1e-10), "lambda": lambda x: np.maximum(x, 1e-10),
         "old": functools.partial(old_flooring.max_flooring, eps=1e-10), "None": None, "identity": fl.identity,
         "oldidentity": old_flooring.identity, "add0": functools.partial(fl.add_flooring, eps=0), "add": fl.add_flooring,
         "oldadd": old_flooring.add_flooring}
PAIR = {"None": None, "seq": sel.sequential_pair_selector, "oldseq": old_pair.sequential_pair_selector,
        "comb": sel.combination_pair_selector, "oldcomb": old_pair.combination_pair_selector}
BOOL = {"True": True, "False": False, "None": None}


def model_kind(cls):
    return {"GradICA": "ica", "NaturalGradICA": "ica", "GradFDICA": "fdica", "NaturalGradFDICA": "fdica", "AuxFDICA": "auxfdica",
            "GradIVA": "iva", "NaturalGradIVA": "iva", "AuxIVA": "auxiva"}[cls]


def build(conf, seed, n_bins, seen):
    cls, o, n = conf["cls"], conf["o"], conf["n"]
    kw, call = {}, {}
    for s, v in o.items():
        if s == "model":
            key = (model_kind(cls), v)
            kw.update(MODELS.get(key) or dict(contrast_fn=gauss_contrast, d_contrast_fn=lambda r: 2 * n_bins / r))
            continue
        if v == "omitted":
            continue
        if s == "cb":
            cb = lambda m: seen.append(len(seen))  # noqa: E731
            kw["callbacks"] = {"None": None, "one": cb, "list": [cb]}[v]
        elif s == "rec":
            kw["record_loss"] = BOOL[v]
        elif s == "init":
            call["initial_call"] = True
        elif s == "step":
            kw["step_size"] = 1e-1
        elif s == "hol":
            kw["is_holonomic"] = BOOL[v]
        elif s == "floor":
            kw["flooring_fn"] = FLOOR[v]
        elif s == "sp":
            kw["diagonalizer_algorithm" if cls == "FastGaussMNMF" else "spatial_algorithm"] = v
        elif s == "pair":
            kw["pair_selector"] = PAIR[v]
        elif s in ("perm", "scale", "norm"):
            name = {"perm": "permutation_alignment", "scale": "scale_restoration",
                    "norm": "source_normalization" if "IPSDTA" in cls else "normalization"}[s]
            kw[name] = BOOL.get(v, v)
        elif s == "ref":
            kw["reference_id"] = int(v)
        elif s == "src":
            kw["source_algorithm"] = v
        elif s == "dom":
            kw["domain"] = int(v)
        elif s == "part":
            kw["partitioning"] = BOOL[v]
        elif s == "nsrc":
            kw["n_sources"] = None if v == "None" else n
        elif s == "dof":
            kw["dof"] = BIG if v == "huge" else int(v)
        elif s == "beta":
            kw["beta"] = 2 - 1e-8 if v == "near2" else float(v)
        elif s == "relax":
            a, b = v.split("=")
            kw[a] = float(b)
        elif s in ("mu1", "mu2", "rho"):
            kw[s] = float(v)
        elif s == "att":
            kw["attenuation"] = None if v == "None" else 1 / n if v == "1/C" else float(v)
        elif s in ("newton", "giter", "liter"):
            kw[{"newton": "newton_iter", "giter": "global_iter", "liter": "local_iter"}[s]] = int(v)
        elif s == "lqpqm":
            kw["lqpqm_normalization"] = BOOL[v]
        elif s == "miter":
            kw["mask_iter"] = int(v)
        elif s == "mask":
            kw["mask_fn"] = cat.lap_mask if v == "lap" else hva_mask
        elif s == "pen":
            p, f = PEN[v]
            if cls in ("PDSIVA", "ADMMIVA"):
                kw.update(contrast_fn=lambda y: np.linalg.norm(y, axis=1), prox_penalty=f)
            else:
                kw.update(penalty_fn=p, prox_penalty=f)
        elif s == "aux":
            call[v] = np.tile(np.eye(n, dtype=complex), (n_bins, 1, 1))
        elif s == "drive":
            pass
        else:
            raise KeyError(s)
    if cls == "FastICA":
        kw.update(contrast_fn=cat.ica_contrast, score_fn=cat.ica_score, d_score_fn=cat.ica_dscore)
    if cls in ("FastIVA", "FasterIVA"):
        kw.update(contrast_fn=cat.iva_contrast_s, d_contrast_fn=cat.iva_dcontrast_s)
        if cls == "FastIVA":
            kw["dd_contrast_fn"] = cat.iva_ddcontrast_s
    if "ILRMA" in cls or "MNMF" in cls or "IPSDTA" in cls:
        kw["n_basis"] = 4 if "ILRMA" in cls else 2
    if "IPSDTA" in cls:
        kw["n_blocks"] = 2
    if "ILRMA" in cls or "MNMF" in cls or "IPSDTA" in cls or cls == "CACGMM":
        kw["rng"] = np.random.default_rng(900 + seed)
    return CLS[cls](**kw), call


def mixture(conf, seed):
    n, cls = conf["n"], conf["cls"]
    if cls.endswith("ICA") and "FDICA" not in cls:
        return cat.real_mixture(seed, n, 90)
    nb = 17 if cls == "CACGMM" else 5 if n == 2 else 3         # enough bins for the alignment sweeps to differ
    x = cat.tf_mixture(seed, n_ch=n, n_bins=nb, n_frames=24 if n == 2 else 30)
    if any(t in cls for t in ("PDS", "ADMM", "HVA")):
        x = 0.7 * x / np.max(np.linalg.norm(x.transpose(1, 0, 2), ord=2, axis=(-2, -1)))
    return x


def execute(conf, seed, n_iter):
    x = mixture(conf, seed)
    seen = []
    res = {"exc": "", "out": None, "par": {}, "loss": None, "seen": 0}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m, call = build(conf, seed, x.shape[1], seen)
            drive = conf["o"].get("drive", "call")
            if drive == "call":
                res["out"] = np.array(m(x.copy(), n_iter=n_iter, **call))
                if m.loss is not None:
                    res["loss"] = np.array(list(m.loss), dtype=float)
            else:
                m(x.copy(), n_iter=0, **call)
                arg = {"hand": {}, "hand-self": {"flooring_fn": "self"}, "hand-none": {"flooring_fn": None}}.get(drive)
                for _ in range(n_iter):
                    m.update_once(**({"flooring_fn": m.flooring_fn} if arg is None else arg))
            res["par"] = snap(m)
            res["seen"] = len(seen)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        res["exc"] = type(ex).__name__ + ": " + str(ex)[:120]
    return res


def diff(a, b):
    if a is None or b is None:
        return -1
    if np.any(~np.isfinite(a)) and np.any(~np.isfinite(b)):
        return -1
    return q(rel(a, b))


def phase_free(a, b):
    """Difference of two outputs up to one free phase per source and bin."""
    if a is None or b is None or a.shape != b.shape or a.ndim < 3:
        return diff(a, b)
    r = np.sum(a * np.conj(b), axis=-1, keepdims=True)
    return diff(a, b * r / np.where(np.abs(r) > 0, np.abs(r), 1))


def pair_event(args):
    c, seed = args
    a, b = c["a"], c["b"]
    n_iter = 1 + (c["id"] + seed) % 4
    if "IPSDTA" in a["cls"]:
        n_iter = min(n_iter, 2)
    A, B = execute(a, seed + c["id"], n_iter), execute(b, seed + c["id"], n_iter)
    shared = [k for k in A["par"] if k in B["par"]] if a["cls"] != b["cls"] or "phase" in c["weak"] else sorted(A["par"].keys() | B["par"].keys())
    par = -1
    if not A["exc"] and not B["exc"]:
        par = max([diff(np.squeeze(A["par"][k]), np.squeeze(B["par"][k])) if k in A["par"] and k in B["par"] else 2_000_000_000 for k in shared], default=-1)
    loss = -1
    if A["loss"] is not None and B["loss"] is not None and np.all(np.isfinite(A["loss"])) and np.all(np.isfinite(B["loss"])):
        s = max(1.0, float(np.max(np.abs(A["loss"]))))
        loss = q(np.max(np.abs(A["loss"] - B["loss"])) / s) if A["loss"].shape == B["loss"].shape else 2_000_000_000
    changed = sorted({s for s in a["o"] if b["o"].get(s, a["o"][s]) != a["o"][s]})
    key = f"pair/{a['cls']}->{b['cls']}/n{a['n']}/{','.join(changed) or '-'}/weak={'+'.join(sorted(c['weak'])) or 'none'}/case{c['id']}"
    return dict(ev="pair", start=1, key=key, a=a, b=b, weak=c["weak"], it=n_iter, exca=A["exc"], excb=B["exc"],
                out=diff(A["out"], B["out"]), outp=phase_free(A["out"], B["out"]), par=par, loss=loss, seen=[A["seen"], B["seen"]])


# ------------------------------------------------------------------ helper functions
def rngarr(seed):
    rng = np.random.default_rng([seed, 77])
    z = rng.standard_normal((3, 4, 4)) + 1j * rng.standard_normal((3, 4, 4))
    return rng, z, z @ z.conj().swapaxes(-2, -1) + np.eye(4)


def resolve(path):
    mod, _, name = path.rpartition(".")
    return getattr(importlib.import_module("ssspy." + mod), name)


def arguments(name, seed):
    """Positional arguments of a helper (drawn fresh each time, the same for the same seed)."""
    rng, z, H = rngarr(seed)
    tf = rng.standard_normal((3, 5, 20)) + 1j * rng.standard_normal((3, 5, 20))
    tf2 = rng.standard_normal((3, 5, 20)) + 1j * rng.standard_normal((3, 5, 20))
    n = name.rpartition(".")[2]
    return {
        "max_flooring": lambda: ((rng.standard_normal((3, 4)) * 10.0 ** rng.integers(-14, 3, size=(3, 4)),), {}),
        "add_flooring": lambda: ((rng.standard_normal((3, 4)) * 10.0 ** rng.integers(-14, 3, size=(3, 4)),), {}),
        "identity": lambda: ((rng.standard_normal((3, 4)),), {}),
        "to_psd": lambda: ((z + z.conj().swapaxes(-2, -1),), {}),
        "sequential_pair_selector": lambda: ((int(rng.integers(2, 7)),), {}),
        "combination_pair_selector": lambda: ((int(rng.integers(2, 7)),), {}),
        "correlation_based_permutation_solver": lambda: ((np.abs(tf).transpose(1, 0, 2).copy(),), {}),
        "score_based_permutation_solver": lambda: ((np.abs(tf).transpose(1, 0, 2) / np.abs(tf).transpose(1, 0, 2).sum(axis=1, keepdims=True),), {}),
        "projection_back": lambda: ((tf,), {"reference": tf2}),
        "minimal_distortion_principle": lambda: ((tf,), {"reference": tf2}),
        "pca": lambda: ((tf,), {}),
        "softmax": lambda: ((rng.standard_normal((3, 4)),), {}),
        "logsumexp": lambda: ((rng.standard_normal((3, 4)),), {}),
        "eigh": lambda: ((H, H[::-1] + 2 * np.eye(4)), {}),
        "eigh2": lambda: ((H[..., :2, :2], H[::-1][..., :2, :2] + 2 * np.eye(2)), {}),
        "gmeanmh": lambda: ((H, H[::-1] + 2 * np.eye(4)), {}),
        "l1": lambda: ((tf,), {}),
        "l21": lambda: ((tf,), {}),
        "neg_log": lambda: ((np.abs(tf),), {}),
        "neg_logdet": lambda: ((z,), {}),
        "solve_cubic": lambda: ((1 + rng.random(6), rng.standard_normal(6), rng.standard_normal(6), rng.standard_normal(6)), {}),
        "lqpqm2": lambda: ((H, rng.standard_normal((3, 4)) + 0j, 1 + rng.random(3)), {}),
    }[n]()


VALUE = {"floor": functools.partial(fl.max_flooring, eps=1e-10)}


def value(s):
    if s in VALUE:
        return VALUE[s]
    return {"True": True, "False": False, "None": None}.get(s, None) if s in ("True", "False", "None") else \
        s if s.isalpha() else float(s) if "." in s or "e" in s else int(s)


def evaluate(path, seed, extra):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a, kw = arguments(path, seed)
            r = resolve(path)(*a, **kw, **extra)
            if not isinstance(r, (np.ndarray, tuple, np.generic, int, float, complex)):   # any iterable of pairs
                r = np.array(list(r))
            rs = [np.array(v) for v in (r if isinstance(r, tuple) else (r,))] + [np.array(v) for v in a]   # in-place effects too
        return rs, ""
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return None, type(ex).__name__ + ": " + str(ex)[:120]


def helper_event(args):
    h, seed = args
    extra = {h["par"]: value(h["value"])} if h["par"] != "-" else {}
    A, ea = evaluate(h["name"], seed, extra if h["alias"] == "-" else {k: v for k, v in extra.items()})
    B, eb = evaluate(h["alias"] if h["alias"] != "-" else h["name"], seed, extra if h["alias"] != "-" else {})
    out = -1
    if A is not None and B is not None:
        out = max(diff(x, y) for x, y in zip(A, B)) if len(A) == len(B) else 2_000_000_000
    return dict(ev="helper", start=1, key=f"helper/{h['name']}/{h['par']}={h['value']}/{h['alias']}", name=h["name"], exca=ea, excb=eb, out=out)


def niter_event(args):
    """A run that leaves the number of iterations out."""
    h, seed = args
    e = next(v for v in cat.entries() if v.cls.__name__ == h["name"])
    x = e.data(seed, n_ch=2, n_bins=3, n_frames=8) if e.kind == "tf" else e.data(seed, n_ch=2, n_samples=30)
    if any(t in h["name"] for t in ("PDS", "ADMM", "HVA")):
        x = 0.7 * x / np.max(np.linalg.norm(x.transpose(1, 0, 2), ord=2, axis=(-2, -1)))
    ev = dict(ev="niter", start=1, key=f"niter/{h['name']}", want=h["iters"], seen=0, loss=0, out=0)
    eye = np.tile(np.eye(2, dtype=complex), (3, 1, 1))
    call = {"auxiliary1": eye} if "ADMM" in h["name"] else {}
    try:
        seen = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a = e.build(seed, callbacks=lambda m: seen.append(0))
            y = np.array(a(x.copy(), **call))
            z = np.array(e.build(seed)(x.copy(), n_iter=h["iters"], **call))
        ev["seen"], ev["out"] = len(seen), diff(y, z)
        if a.loss is not None:
            ev["loss"] = len(a.loss)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        ev["key"] += "/" + type(ex).__name__ + str(ex)[:60]
    return ev


def run(ctx):
    ctx.model("Config", "Config" if ctx.quick else "ConfigBig", workers=8 if not ctx.quick else 4, timeout=1500)
    cases = ctx.generate("ConfigGen", "ConfigGen" if ctx.quick else "ConfigGenBig", extra=("-seed", str(ctx.seed)))
    helpers = ctx.generate("ConfigHelpers", "ConfigHelpers")
    ctx.sample({"case": cases[0]})
    ev = pmap(pair_event, [(c, ctx.seed) for c in cases])
    hv = pmap(helper_event, [(h, s) for h in helpers if "iters" not in h for s in range(ctx.seed, ctx.seed + (2 if ctx.quick else 10))])
    iv = pmap(niter_event, [(h, ctx.seed) for h in helpers if "iters" in h])
    ctx.extra["default_iterations"] = len(iv)
    ctx.sample({"pair": ev[0]})
    ctx.extra["pairs"] = len(ev)
    ctx.extra["pairs_raising_both"] = sum(1 for e in ev if e["exca"] and e["excb"])
    ctx.extra["compared"] = {k: sum(1 for e in ev if e[k] >= 0) for k in ("out", "par", "loss")}
    ctx.extra["helpers"] = len(hv)
    ctx.validate("ConfigTrace", ev + hv + iv, chunk=1000)
    ctx.assumptions += ["equivalences are the documented ones plus the special cases named in the property",
                        "t-distribution limit compared at 1e8 degrees of freedom to 1e-3"]

"""C07: symmetries of the mixture carry over to the result."""
import random
import warnings

import numpy as np

from iterlib import data_for, has_loss, own_fault, plain_kwargs
from rt import pmap, q, rel
from runs import wide
from symmetry import base_state, family, rand_unitary

FREE_PHASE = ("IP2", "ISS2")


def fam_of(e):
    f = family(e)
    n = e.cls.__name__
    if f == "ica":
        return "fastica" if n == "FastICA" else "ica"
    if f == "prox":
        return "hva" if "HVA" in n else "prox"
    return {"ipsdta": "psdtf", "cacgmm": "mixture"}.get(f, f)


def rule_of(e):
    n = e.cls.__name__
    if "NaturalGrad" in n:
        return "natural"
    if n.startswith("Grad"):
        return "grad"
    return str(e.kwargs.get("spatial_algorithm", e.kwargs.get("diagonalizer_algorithm", "")))


class Element:
    def __init__(self, d, n_src=None):
        self.fb, self.ft = np.array(d["fb"]) - 1, np.array(d["ft"]) - 1
        self.phase = np.exp(2j * np.pi * np.array(d["ph"]) / 12)
        A = np.array(d["A"], float)
        self.A = (A[..., 0] + 1j * A[..., 1]) / np.array(d["den"])[:, None, None]
        self.cj = bool(d["cj"])
        self.src = np.array(d["src"]) - 1 if n_src in (None, len(d["src"])) else np.arange(n_src)

    def c(self, a):
        return a.conj() if self.cj else a

    def x(self, x):
        if x.ndim == 2:
            return (self.A[0].real @ x)[:, self.ft]
        return self.c((np.einsum("bcd,dbt->cbt", self.A, x) * self.phase)[:, self.fb][:, :, self.ft])

    def y(self, y):
        if y.ndim == 2:
            return y[self.src][:, self.ft]
        return self.c((y * self.phase)[self.src][:, self.fb][:, :, self.ft])

    def post(self, p):
        return p[self.src][:, self.fb][:, :, self.ft]

    def W(self, W):
        if W.ndim == 2:
            return (W @ np.linalg.inv(self.A[0].real))[self.src]
        return self.c((W @ np.linalg.inv(self.A))[self.fb][:, self.src])

    def diag(self, Q):
        return self.c((Q @ np.linalg.inv(self.A))[self.fb])

    def rows(self, W):                    # a unitary filter on whitened data: sensors do not act
        return self.c(W[self.fb][:, self.src]) if W.ndim == 3 else W[self.src]

    def H(self, H):
        return self.c((self.A @ H @ self.A.conj().transpose(0, 2, 1))[self.src][:, self.fb])


def act(e, g, st):
    fam = fam_of(e)
    part = bool(e.kwargs.get("partitioning"))
    out = {}
    for k, v in st.items():
        if k in ("demix_filter", "auxiliary1"):
            out[k] = g.rows(v) if fam in ("fastiva", "fastica") else g.W(v)
        elif k == "diagonalizer":
            out[k] = g.diag(v)
        elif k == "basis":
            out[k] = v[g.fb] if part else v[g.src][:, g.fb]
        elif k == "activation":
            out[k] = v[:, g.ft] if part else v[g.src][..., g.ft]
        elif k == "latent":
            out[k] = v[g.src]
        elif k in ("spatial", "covariance") and fam in ("mnmf", "mixture"):
            out[k] = g.H(v)
        elif k == "spatial":
            out[k] = v[g.fb][:, g.src]
        elif k == "mixing":
            out[k] = v[g.src][:, g.fb]
        else:
            out[k] = v
    return out


def starting(e, x, seed):
    fam = fam_of(e)
    if x.ndim == 2:
        rng = np.random.default_rng(seed + 5)
        C = x.shape[0]
        W = np.eye(C) + 0.3 * rng.standard_normal((C, C))
        return {"demix_filter": np.linalg.qr(W)[0] if fam == "fastica" else W}
    st = base_state(e, x, seed)
    C, F, T = x.shape
    rng = np.random.default_rng(seed + 6)
    if fam == "psdtf":
        st["activation"] = rng.random((C, e.kwargs["n_basis"], T)) + 0.1
    if "ADMM" in e.cls.__name__:
        st["auxiliary1"] = st["demix_filter"].copy()
    if fam == "mixture":
        N = e.kwargs.get("n_sources") or C
        a = rng.random((N, F)) + 0.2
        B = rng.standard_normal((N, F, C, C)) + 1j * rng.standard_normal((N, F, C, C))
        B = B @ B.conj().transpose(0, 1, 3, 2) + np.eye(C)
        st["mixing"] = a / a.sum(axis=0)
        st["covariance"] = B / np.trace(B, axis1=-2, axis2=-1).real[..., None, None]
    return st


def one(e, x, st, seed, over, n_iter):
    fam = fam_of(e)
    st = {k: v.copy() for k, v in st.items()}
    late = {k: st.pop(k) for k in ("mixing", "covariance") if fam == "mixture"}
    # activations of the block-wise model exist without a basis: it is drawn at random
    box = [0]

    def cb(m):
        if box[0] == 0 and late:
            for k, v in late.items():
                setattr(m, k, v)
        box[0] += 1

    m = e.build(seed, callbacks=cb, **over)
    out = np.array(m(x.copy(), n_iter=n_iter, **st))
    return m, out


PARAMS = ("basis", "activation", "latent", "spatial", "mixing")


def events_of(args):
    name, case, seed, tag = args
    e = wide()[name]
    fam, rule = fam_of(e), rule_of(e)
    C, F, T = case["shape"]
    opt = []
    over = dict(plain_kwargs(e))
    if tag == "restored":
        over = {}
        opt.append("restored")
        if "FDICA" in name:
            opt.append("aligned")
    if tag == "mdp":
        over["scale_restoration"] = "minimal_distortion_principle"
        opt.append("restored")
    if fam == "mixture" and tag != "plain":
        opt.append("aligned")
    if e.kwargs.get("normalization") == "projection_back":
        opt.append("pbnorm")
    if fam == "mnmf" and e.kwargs.get("partitioning") and e.kwargs.get("normalization", True):
        opt.append("sharednorm")               # the trace of a shared basis cannot be absorbed
    if e.kind == "real":
        rng = np.random.default_rng(seed)
        x = (rng.standard_normal((C, C)) + np.eye(C)) @ rng.laplace(size=(C, T))
    else:
        x = data_for(e, seed, n_ch=C, n_bins=F, n_frames=T)
    if fam in ("prox", "hva"):
        x = 0.7 * x / max(np.linalg.norm(x[:, b], 2) for b in range(F))
    g = Element(case["g"], e.kwargs.get("n_sources"))
    key = f"{name}/{tag}/case{case['id']}:{'.'.join(case['gens'])}/s{seed}"
    ev = dict(key=key, fam=fam, rule=rule, opt=opt, gens=case["gens"], start=1)
    sensors = bool({"perm", "unit", "rot", "sign", "shear", "shearr", "scale"} & set(case["gens"]))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            st = starting(e, x, seed)
            st2 = act(e, g, st)
            a, ya = one(e, x, st, seed, over, 3)
            b, yb = one(e, g.x(x), st2, seed, over, 3)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev, ev="exc", what=repr(ex)[:300])]
    r = dict(ev, ev="pair", y=0, par=0, grow=0, shift=0)
    if fam == "mixture" and sensors:
        r["y"] = q(rel(b.posterior, g.post(a.posterior)))
    elif not (fam in ("mnmf", "fastmnmf") and sensors):
        want = g.y(ya)
        if rule in FREE_PHASE and want.ndim == 3 and want.shape == yb.shape:
            c = np.sum(yb * want.conj(), axis=-1, keepdims=True)
            want = want * c / np.maximum(np.abs(c), 1e-300)
        r["y"] = q(rel(yb, want))
    have = {k: np.array(getattr(a, k)) for k in PARAMS if isinstance(getattr(a, k, None), np.ndarray)}
    if fam in ("ilrma", "mnmf", "fastmnmf", "mixture"):
        want = act(e, g, have)
        if fam == "mnmf" and sensors:          # only H up to its own trace normalization
            for k in ("spatial", "basis"):
                want.pop(k)
            H, H2 = np.array(a.spatial), np.array(b.spatial)
            M = g.H(H)
            M = M / np.trace(M, axis1=-2, axis2=-1)[..., None, None]
            H2 = H2 / np.trace(H2, axis1=-2, axis2=-1)[..., None, None]
            r["par"] = q(rel(H2, M))
        r["par"] = max([r["par"]] + [q(rel(np.array(getattr(b, k)), v)) for k, v in want.items()])
    if has_loss(e) and a.loss and b.loss:
        la, lb = np.array(a.loss), np.array(b.loss)
        if len(la) != len(lb):
            r["grow"] = q(float("inf"))
        else:
            s = np.maximum(1, np.abs(la))[1:]
            d = (lb - la)[1:] if fam == "mixture" else lb - la
            r["grow"] = q((d.max() - d.min()) / s.max())
            r["shift"] = q(np.abs(d).max() / s.max())
    return [r]


def word_event(case):
    """The composed element acts as its word (on complex data)."""
    C, F, T = case["shape"]
    rng = np.random.default_rng(case["id"])
    x = rng.standard_normal((C, F, T)) + 1j * rng.standard_normal((C, F, T))
    y = rng.standard_normal((C, F, T)) + 1j * rng.standard_normal((C, F, T))
    x1, y1 = x, y
    for w in case["word"]:
        x1, y1 = Element(w).x(x1), Element(w).y(y1)
    g = Element(case["g"])
    return [dict(ev="word", key=f"word/{case['id']}", resid=q(max(rel(x1, g.x(x)), rel(y1, g.y(y)))), start=1)]


def classes(e):
    fam, rule = fam_of(e), rule_of(e)
    if fam == "fastica":
        return ["realsource"]
    if fam == "ica":
        return ["realaffine" if rule == "natural" else "real", "realsource"]
    if fam == "psdtf":
        return ["psdtf"]
    if fam == "hva":
        return ["nobins", "source"]
    if fam == "fastiva":
        return ["source"]
    out = ["data", "unitary"] + (["affine"] if rule != "grad" and fam != "prox" else [])
    if rule in ("grad", "natural") or fam in ("prox", "mnmf", "fastmnmf", "mixture"):
        out += ["source", "all"] if rule != "grad" and fam != "prox" else ["source"]
    return out


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("Symmetry", "Symmetry" if ctx.quick else "SymmetryBig", timeout=800)
    cases = ctx.generate("SymmetryGen", "SymmetryGen" if ctx.quick else "SymmetryGenBig", extra=("-seed", str(ctx.seed + 70)))
    jobs = []
    for name, e in sorted(wide().items()):
        want = classes(e)
        n_src = e.kwargs.get("n_sources")
        pool = [c for c in cases if c["cls"] in want and (n_src in (None, c["shape"][0]) or "src" not in c["gens"])]
        restored = [c for c in cases if c["cls"] in ("data", "nobins")] if e.kind != "real" and fam_of(e) != "psdtf" else []
        if rule_of(e) in ("natural", "grad") and restored:
            restored += [c for c in pool if c["cls"] == "source"]
        for c in rnd.sample(pool, min(len(pool), 4 if ctx.quick else 60)):
            jobs.append((name, c, ctx.seed, "plain"))
        for c in rnd.sample(restored, min(len(restored), 2 if ctx.quick else 25)):
            jobs.append((name, c, ctx.seed + 1, rnd.choice(["restored", "mdp"] if "scale_restoration" in e.cls.__init__.__code__.co_varnames else ["restored"])))
    rnd.shuffle(jobs)
    evs = []
    for t in pmap(events_of, jobs):
        evs += t
    for c in cases:
        evs += word_event(c)
    ctx.extra.update(pairs_of_runs=len(jobs), configurations=len({j[0] for j in jobs}), words=len(cases))
    ctx.sample(evs[0])
    ctx.sample(evs[-1])
    ctx.validate("SymmetryTrace", evs, ntraces=len(jobs) + len(cases))
    ctx.assumptions += ["3 iterations, agreement to 1e-6"]

"""Ingredients of the documented objectives, measured from the public state of an object."""
from fractions import Fraction

import numpy as np

from catalog import Entry  # noqa: F401


FLOOR = 1e-8       # the library floors at 1e-10


def logabsdet(A):
    """sum over the batch of log|det|, from singular values"""
    return float(np.sum(np.log(np.linalg.svd(A, compute_uv=False))))


def filter_of(m):
    W = getattr(m, "demix_filter", None)
    if W is not None:
        return np.array(W)
    X, Y = m.input.transpose(1, 0, 2), m.output.transpose(1, 0, 2)
    return np.stack([np.linalg.lstsq(X[b].T, Y[b].T, rcond=None)[0].T for b in range(len(X))])


def apply(W, x):
    if x.ndim == 2:
        return W @ x
    return np.stack([W[b] @ x[:, b] for b in range(x.shape[1])], axis=1)


def nmf(m):
    """lambda[n, i, j] by definition"""
    T, V = m.basis, m.activation
    if getattr(m, "partitioning", False):
        return np.einsum("nk,ik,kj->nij", m.latent, T, V)
    return np.einsum("nik,nkj->nij", T, V)


def blocks(m):
    """list of (first bin, covariance[n, j, b, q, q]) of the block-wise source model"""
    T = m.basis if isinstance(m.basis, tuple) else (m.basis,)
    out, at = [], 0
    for t in T:
        R = np.einsum("nkbpq,nkj->njbpq", t, m.activation)
        for b in range(R.shape[2]):
            out.append((at, R[:, :, b]))
            at += R.shape[-1]
    return out


def contrast(e, m, y):
    """sum over sources of the frame average of the model's negative log-density"""
    n = e.cls.__name__
    if "contrast_fn" in e.kwargs:
        G = e.kwargs["contrast_fn"](y)
    elif "Laplace" in n:
        G = np.abs(y) if y.ndim == 2 else 2 * np.abs(y) if "FDICA" in n else 2 * np.sqrt(np.sum(np.abs(y) ** 2, axis=1))
    elif "Gauss" in n:
        a = m.variance
        G = y.shape[1] * np.log(a) + np.sum(np.abs(y) ** 2, axis=1) / a
    else:
        raise KeyError(n)
    return float(np.sum(G) / y.shape[-1])


def two_norm(y):
    return np.sqrt(np.sum(np.abs(y) ** 2, axis=1))


def family(e):
    n = e.cls.__name__
    if n in ("FastICA", "FastIVA", "FasterIVA"):
        return "fixed"
    if "FDICA" in n or ("IVA" in n and n not in ("PDSIVA", "ADMMIVA")):
        return "tf"
    if "ICA" in n:
        return "ica"
    return {"GaussILRMA": "gauss", "TILRMA": "t", "GGDILRMA": "ggd", "GaussIPSDTA": "psdtf", "TIPSDTA": "tpsdtf",
            "GaussMNMF": "mnmf", "FastGaussMNMF": "fastmnmf", "CACGMM": "mixture", "PDSBSS": "penalty",
            "ADMMBSS": "penalty", "PDSIVA": "penalty", "ADMMIVA": "penalty"}.get(n)


def ingredients(e, m):
    fam = family(e)
    x = m.input
    T = x.shape[-1]
    g = {}
    if fam == "fixed":
        g["contrast"] = contrast(e, m, apply(m.demix_filter, m.whitened_input))
        return g
    if fam == "mixture":
        z = x / np.linalg.norm(x, axis=0)
        tot = 0.0
        C = x.shape[0]
        L = []
        for n in range(m.covariance.shape[0]):
            B = m.covariance[n]
            zBz = np.stack([np.einsum("cj,cd,dj->j", z[:, i].conj(), np.linalg.inv(B[i]), z[:, i]).real for i in range(len(B))])
            ev = np.linalg.eigvalsh(B)
            if np.min(ev[:, 0] / ev[:, -1]) < FLOOR:
                return {"loglik": float("nan")}
            ld = np.array([np.sum(np.log(np.linalg.eigvalsh(B[i]))) for i in range(len(B))])
            if zBz.min() < FLOOR:
                return {"loglik": float("nan")}
            L.append(np.log(m.mixing[n])[:, None] - ld[:, None] - C * np.log(zBz))
        L = np.array(L)
        mx = L.max(axis=0)
        tot = np.sum(mx + np.log(np.sum(np.exp(L - mx), axis=0))) / T
        return {"loglik": float(tot)}
    if fam == "mnmf":
        lam = nmf(m)
        q = d = 0.0
        for i in range(x.shape[1]):
            R = np.einsum("nj,ncd->jcd", lam[:, i], m.spatial[:, i])
            ev, P = np.linalg.eigh(R)
            if ev.min() < 1e-4:
                return {"quad": float("nan")}                # flooring of the model is dominant: degenerate
            ev = m.flooring_fn(ev)                           # the documented regularisation of the model
            q += np.sum(np.abs(np.einsum("jcd,cj->jd", P.conj(), x[:, i])) ** 2 / ev) / T
            d += np.sum(np.log(ev)) / T
        return {"quad": float(q), "logdetR": float(d)}
    if fam == "fastmnmf":
        lam = nmf(m)
        Q = np.array(m.diagonalizer)
        qx = np.abs(apply(Q, x)) ** 2                       # [m, i, j]
        r = np.einsum("nij,inm->mij", lam, m.spatial)
        return {"quad": float(np.sum(qx / r) / T), "logr": float(np.sum(np.log(r)) / T), "logdet": logabsdet(Q)}
    W = filter_of(m)
    y = apply(W, x)
    g["logdet"] = logabsdet(W)
    if fam in ("ica", "tf"):
        g["contrast"] = contrast(e, m, y)
    elif fam == "penalty":
        fns = e.kwargs.get("penalty_fn") or (lambda y: np.sum(e.kwargs.get("contrast_fn", two_norm)(y)))
        g["penalty"] = float(sum(f(y) for f in (fns if isinstance(fns, (list, tuple)) else [fns])))
    elif fam in ("gauss", "t", "ggd"):
        r = nmf(m) ** (2 / m.domain)
        g["logr"] = float(np.sum(np.log(r)) / T)
        u = np.abs(y) ** 2 / r
        if fam == "gauss":
            g["quad"] = float(np.sum(u) / T)
        elif fam == "t":
            g["logt"] = float(np.sum(np.log(1 + 2 * u / m.dof)) / T)
        else:
            g["power"] = float(np.sum(u ** (m.beta / 2)) / T)
    else:
        quad = np.zeros((y.shape[0], T))
        ld = 0.0
        for at, R in blocks(m):
            k = R.shape[-1]
            yb = y[:, at:at + k]
            quad += np.einsum("npj,njpq,nqj->nj", yb.conj(), np.linalg.inv(R), yb).real
            ld += np.sum(np.log(np.linalg.eigvalsh(R))) / T
        g["logdetR"] = float(ld)
        if fam == "psdtf":
            g["quad"] = float(np.sum(quad) / T)
        else:
            g["logt"] = float(np.sum(np.log(1 + 2 * quad / m.dof)) / T)
    return g


def dof(e):
    f = Fraction(e.kwargs.get("dof", 0)).limit_denominator(16)
    return [f.numerator, f.denominator]

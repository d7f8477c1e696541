"""C10: what one update does, measured against the optimality condition of its rule."""
import random
import warnings

import numpy as np

from iterlib import call_kwargs, data_for, own_fault, plain_kwargs
from objective import apply, blocks, family, filter_of, nmf
from rt import pmap, q
from runs import wide
from ssspy.bss._update_spatial_model import (
    update_by_block_decomposition_vcd,
    update_by_ip1,
    update_by_ip2,
    update_by_ipa,
    update_by_iss1,
    update_by_iss2,
)

SHAPES = [dict(n_ch=2, n_bins=3, n_frames=40), dict(n_ch=3, n_bins=3, n_frames=50), dict(n_ch=4, n_bins=2, n_frames=60)]
FINE = 1e-12


def f(v):
    return q(v, FINE)


# ------------------------------------------------------------------ conditions
def form(w, U, v):
    """|w U v^H| in units of the lengths involved; w, v: (bins, c), U: (bins, c, c)"""
    a = np.einsum("bc,bcd,bd->b", w, U, v.conj())
    nw = np.sqrt(np.abs(np.einsum("bc,bcd,bd->b", w, U, w.conj())))
    nv = np.sqrt(np.abs(np.einsum("bc,bcd,bd->b", v, U, v.conj())))
    return float(np.max(np.abs(a) / (nw * nv)))


def length(w, U):
    return float(np.max(np.abs(np.einsum("bc,bcd,bd->b", w, U, w.conj()) - 1)))


def better(J, Jother):
    """how much worse the solution is than the other assignment of the pair"""
    return float(np.max(np.maximum(J - Jother, 0) / np.maximum(1, np.abs(Jother))))


def cost(W, U):
    """sum_n w_n U_n w_n^H - 2 log|det W| per bin; U: (bins, n, c, c)"""
    return np.einsum("bnc,bncd,bnd->b", W, U, W.conj()).real - 2 * np.log(np.abs(np.linalg.det(W)))


def rows_event(rule, W0, W1, U, pair=None):
    """U: (bins, n, c, c)"""
    n = W0.shape[1]
    ev = dict(rule=rule, n=n, norm=[f(length(W1[:, i], U[:, i])) for i in range(n)])
    ev["new"] = [[f(form(W1[:, k], U[:, i], W1[:, i])) for k in range(n)] for i in range(n)]
    ev["old"] = [[f(form(W0[:, k], U[:, i], W1[:, i])) for k in range(n)] for i in range(n)]
    if pair is not None:
        ev["pair"] = [p % n + 1 for p in pair]
        ev["moved"] = [f(np.max(np.abs(W1[:, i] - W0[:, i]))) for i in range(n)]
        ev["worse"] = f(better(cost(W1, U), cost(other_pair(W1, U, pair), U)))
    return ev


def other_pair(W, U, pair):
    """the other stationary solution for the pair: the two new rows exchange their roles"""
    m, n = (p % W.shape[1] for p in pair)
    V = W.copy()
    for a, b in ((m, n), (n, m)):
        # the solutions for row a are U_a-orthogonal to the fixed rows; within that plane take
        # the vector orthogonal (under U_a) to the current solution's mate, i.e. swap eigenvectors
        E = np.eye(W.shape[1])[:, [m, n]]
        P = np.linalg.solve(W @ U[:, a], np.broadcast_to(E, (len(W),) + E.shape))
        Pb = np.linalg.solve(W @ U[:, b], np.broadcast_to(E, (len(W),) + E.shape))
        A = np.einsum("bci,bcd,bdj->bij", P.conj(), U[:, a], P)
        B = np.einsum("bci,bcd,bdj->bij", Pb.conj(), U[:, b], Pb)
        for i in range(len(W)):
            lam, H = np.linalg.eig(np.linalg.solve(B[i], A[i]))
            w = P[i] @ H[:, np.argmin(lam.real)]
            V[i, a] = w.conj() / np.sqrt((w.conj() @ U[i, a] @ w).real)
    return V


def corr(phi, a, b):
    """|mean phi a b*| relative, worst bin"""
    num = np.abs(np.mean(phi * a * b.conj(), axis=-1))
    den = np.sqrt(np.mean(phi * np.abs(a) ** 2, axis=-1) * np.mean(phi * np.abs(b) ** 2, axis=-1))
    return float(np.max(num / den))


def power(phi, a):
    return float(np.max(np.abs(np.mean(phi * np.abs(a) ** 2, axis=-1) - 1)))


def transfer(Y0, Y1):
    """M with Y1 = M Y0 per bin"""
    A, B = Y0.transpose(1, 2, 0), Y1.transpose(1, 2, 0)
    return np.stack([np.linalg.lstsq(A[b], B[b], rcond=None)[0].T for b in range(len(A))])


def iss1_event(Y0, Y1, phi):
    n = len(Y0)
    M = transfer(Y0, Y1)
    R = M.copy()
    steps = []
    for i in reversed(range(n)):
        T = np.tile(np.eye(n, dtype=complex), (len(M), 1, 1))
        T[:, :, i] = R[:, :, i]
        steps.append(T)
        R = np.linalg.solve(T, R)
    rest = float(np.max(np.abs(R - np.eye(n))))
    Y = Y0
    new = [[0] * n for _ in range(n)]
    norm = []
    for i, T in enumerate(reversed(steps)):
        Z = apply(T, Y)
        for k in range(n):
            if k != i:
                new[i][k] = f(corr(phi[k], Z[k], Y[i]))
        norm.append(f(power(phi[i], Z[i])))
        Y = Z
    return dict(rule="iss1", n=n, new=new, norm=norm, rest=f(rest))


def iss2_event(Y0, Y1, phi, pair):
    n = len(Y0)
    m, k = (p % n for p in pair)
    old = [[0] * n for _ in range(n)]
    new = [[0] * n for _ in range(n)]
    for i in (m, k):
        for j in range(n):
            if j not in (m, k):
                old[i][j] = f(corr(phi[j], Y1[j], Y0[i]))
    for i, j in ((m, k), (k, m)):
        new[i][j] = f(corr(phi[i], Y1[j], Y1[i]))
    M = transfer(Y0, Y1)
    D = M - np.eye(n)
    D[:, :, [m, k]] = 0
    # the better of the two assignments: with new rows m, k exchanged and rescaled
    def J(a, b):
        return (np.log(np.mean(phi[m] * np.abs(a) ** 2, axis=-1)) + np.log(np.mean(phi[k] * np.abs(b) ** 2, axis=-1)))
    worse = float(np.max(np.maximum(J(Y1[m], Y1[k]) - J(Y1[k], Y1[m]), 0)))
    return dict(rule="iss2", n=n, pair=[m + 1, k + 1], old=old, new=new, rest=f(np.max(np.abs(D))), worse=f(worse),
                norm=[f(power(phi[i], Y1[i])) if i in (m, k) else 0 for i in range(n)])


def ipa_step(Y, phi, n):
    """global minimiser of the surrogate for adjusting source n, by the secular equation"""
    N, F, _ = Y.shape
    out = Y.copy()
    others = [k for k in range(N) if k != n]
    for i in range(F):
        y = Y[:, i]
        Un = np.einsum("j,aj,bj->ab", phi[n, i], y, y.conj()) / y.shape[1]
        a = np.array([np.mean(phi[k, i] * np.abs(y[n]) ** 2) for k in others])
        b = np.array([np.mean(phi[k, i] * y[k] * y[n].conj()) for k in others])
        # rows k: y_k - s_k y_n with s_k free; row n: best given s has
        # log|det|^2 = log(t^H Un^-1 t), t = e_n + sum_k conj(s_k) e_k ... minimise over s
        Ui = np.linalg.inv(Un)
        # t = e_n + E c, c = conj(s);  cost sum a|s - b/a|^2 - log(t^H Ui' t)
        # det T for rows k: e_k - s_k e_n and row n = p^H: p^H t with t = e_n + sum s_k e_k
        C = Ui[np.ix_(others, others)]
        d = Ui[others, n]
        z = (Ui[n, n] - d.conj() @ np.linalg.solve(C, d)).real
        sa = np.sqrt(a)
        # s = x/sa + b/a ; t^H Ui t = (s + C^-1 d)^H C (s + C^-1 d) + z
        H = C / np.outer(sa, sa)
        v = sa * (b / a + np.linalg.solve(C, d))
        lam, P = np.linalg.eigh(H)
        w = np.abs(P.conj().T @ v) ** 2

        def g(L):
            return np.sum(L**2 * lam * w / (L - lam) ** 2) + z - L

        lo = max(lam[-1] * (1 + 1e-14), z)
        hi = lo * 2 + 1
        while g(hi) > 0:
            hi *= 2
        for _ in range(300):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if g(mid) > 0 else (lo, mid)
        L = (lo + hi) / 2
        x = P @ ((L / (L - lam)) * (P.conj().T @ v)) - v
        s = x / sa + b / a
        t = np.zeros(N, complex)
        t[n] = 1
        t[others] = s
        p = Ui @ t
        p = p / np.sqrt((t.conj() @ p).real)
        for k, sk in zip(others, s):
            out[k, i] = y[k] - sk * y[n]
        out[n, i] = p.conj() @ y
    return out


def ipa_reference(Y, phi):
    for n in range(len(Y)):
        Y = ipa_step(Y, phi, n)
    return Y


def ipa_event(Y0, Y1, phi):
    R = ipa_reference(Y0, phi)
    ph = np.sum(Y1 * R.conj(), axis=-1, keepdims=True)
    R = R * ph / np.abs(ph)
    n = len(Y0)
    return dict(rule="ipa", n=n, norm=[f(1e-3 * np.max(np.linalg.norm(Y1[i] - R[i], axis=-1) / np.linalg.norm(R[i], axis=-1)))
                                       for i in range(n)])


def vcd_events(W0, W1, R):
    """R[i, j, n]: (c, c) weighted cross-covariances of the bins of one block; W: (bins, n, c)"""
    q_, n, C = W0.shape
    out = []
    for i in range(q_):
        ev = dict(rule="vcd", n=n, norm=[], new=[], old=[])
        for s in range(n):
            w = W1[i, s]
            g = R[i, i, s] @ w.conj()
            for j in range(q_):
                if j != i:
                    g = g + R[i, j, s] @ (W1 if j < i else W0)[j, s].conj()
            size = np.linalg.norm(R[i, i, s] @ w.conj())
            ev["norm"].append(f(abs(w @ g - 1)))
            ev["new"].append([f(abs(W1[i, k] @ g) / (np.linalg.norm(W1[i, k]) * size)) for k in range(n)])
            ev["old"].append([f(abs(W0[i, k] @ g) / (np.linalg.norm(W0[i, k]) * size)) for k in range(n)])
        out.append(ev)
    return out


# ------------------------------------------------------------------ weights of the models
def weights(e, m, y, fam):
    """phi[n, i, j]: the surrogate is mean phi |y|^2 - 2 log|det W|, at the signals before the spatial update"""
    n = e.cls.__name__
    if fam in ("gauss", "t", "ggd"):
        r = nmf(m) ** (2 / m.domain)
        u = np.abs(y) ** 2 / r
        if fam == "gauss":
            return 1 / r
        if fam == "t":
            return ((m.dof + 2) / m.dof) / (r * (1 + 2 * u / m.dof))
        return (m.beta / 2) * np.abs(y) ** (m.beta - 2) / r ** (m.beta / 2)
    if "GaussIVA" in n:
        a = np.mean(np.abs(y) ** 2, axis=1)
        return np.broadcast_to(1 / a[:, None, :], y.shape)
    r = np.abs(y) if "FDICA" in n else np.broadcast_to(np.linalg.norm(y, axis=1, keepdims=True), y.shape)
    if "d_contrast_fn" in e.kwargs:
        return e.kwargs["d_contrast_fn"](r) / (2 * r)
    return 1 / r


def cov(phi, x):
    return np.stack([np.einsum("nj,cj,dj->ncd", phi[:, i], x[:, i], x[:, i].conj()) / x.shape[-1] for i in range(x.shape[1])])


# ------------------------------------------------------------------ numerical gradient
def gradient(m, own, h=1e-6):
    """dL/dW* of the object's own loss, by central differences"""
    W = m.demix_filter.copy()
    out = own.output.copy() if getattr(own, "output", None) is not None else None

    def L(V):
        m.demix_filter = V
        m.output = m.separate(m.input, demix_filter=V)
        return m.compute_loss()

    g = np.zeros_like(W)
    var = getattr(m, "variance", None)
    if var is not None:      # the variances are refreshed first, from the signals before the step
        m.variance = np.mean(np.abs(apply(W, m.input)) ** 2, axis=1)
    for idx in np.ndindex(W.shape):
        for unit in ((1, 1j) if np.iscomplexobj(W) else (1,)):
            V = W.copy()
            V[idx] += h * unit
            a = L(V)
            V = W.copy()
            V[idx] -= h * unit
            b = L(V)
            g[idx] += (a - b) / (2 * h) * unit * (0.5 if np.iscomplexobj(W) else 1)
    m.demix_filter = W
    if var is not None:
        m.variance = var
    if out is not None:
        m.output = out
    return g


# ------------------------------------------------------------------ proximal operators
def neg_logdet(W, mu):
    U, s, V = np.linalg.svd(W)
    return np.stack([U[b] @ np.diag((s[b] + np.sqrt(s[b] ** 2 + 4 * mu)) / 2) @ V[b] for b in range(len(W))])


def group_soft(y, step_size=1):
    n = np.linalg.norm(y, axis=1, keepdims=True)
    return y * np.maximum(1 - step_size / np.maximum(n, 1e-300), 0)


FLOORS = {"default": lambda a: np.maximum(a, 1e-10), "none": lambda a: a, "max": lambda a: np.maximum(a, 0.3), "add": lambda a: a + 0.05}


def hva_options(rnd):
    """(keyword arguments of the classes, key of the flooring)"""
    over, k = {}, rnd.choice(list(FLOORS))
    if k != "default":
        over["flooring_fn"] = None if k == "none" else FLOORS[k]
    a = rnd.choice([None, 0.3, 0.8])
    if a is not None:
        over["attenuation"] = a
    if rnd.random() < 0.7:
        over["mask_iter"] = rnd.choice([1, 2, 3])
    return over, k


def hva_mask(y, attenuation=None, mask_iter=1, floor="default"):
    """cosine shrinkage of the cepstrum, in explicit cosine sums"""
    N, B, T = y.shape
    L = 2 * (B - 1)
    z = np.log(FLOORS[floor](np.abs(y)))
    mean = z.mean(axis=1, keepdims=True)
    k = np.arange(B)
    w = np.where((k == 0) | (k == B - 1), 1.0, 2.0)
    D = np.cos(2 * np.pi * np.outer(k, k) / L) * w                     # real even spectrum -> sequence
    nu = np.einsum("qb,nbt->nqt", D, z - mean) / L
    s = np.minimum(1, nu)
    for _ in range(mask_iter):
        s = (1 - np.cos(np.pi * s)) / 2
    rho = np.einsum("bq,nqt->nbt", D, s * nu) + mean
    v = np.exp(2 * (rho - rho.max(axis=0)))
    return (v / v.sum(axis=0)) ** (1 / N if attenuation is None else attenuation)


def mask_events(args):
    name, n, bins, seed = args
    e = wide()[name]
    rnd = random.Random(f"{name}{n}{bins}{seed}")
    rng = np.random.default_rng(seed)
    over, fl = hva_options(rnd)
    key = f"mask/{name}/n{n}b{bins}/{fl}/{over.get('attenuation')}/{over.get('mask_iter')}/s{seed}"
    y = 10.0 ** rng.uniform(-2, 2, (n, bins, 6)) * np.exp(2j * np.pi * rng.random((n, bins, 6)))
    if fl != "none" and seed % 2:
        y[:, rnd.randrange(bins), 0] = 0
    try:
        m = e.cls(**over)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g = m.mask_fn(y.copy())
            perm = rng.permutation(n)
            gp = m.mask_fn(y[perm])
            gs = m.mask_fn(7 * y * np.exp(1j)) if fl == "none" else g
            again = m.mask_fn(y.copy())
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev="exc", key=key, start=1, what=repr(ex)[:300])]
    opts = {k: v for k, v in over.items() if k != "flooring_fn"}
    a = over.get("attenuation", 1 / n)
    return [dict(ev="step", key=key, start=1, regular=1, rule="mask", n=1,
                 names=["mask", "mask-sum", "mask-of-permuted", "mask-of-scaled", "mask-again"],
                 dev=[dev(g, hva_mask(y, floor=fl, **opts)), dev((g ** (1 / a)).sum(axis=0), np.ones(g.shape[1:])),
                      dev(gp, g[perm]), dev(gs, g), dev(again, g)])]


def prox_ops(e, m, over, fl):
    """list of functions (z, step) -> prox, one per penalty"""
    if "HVA" in e.cls.__name__:
        opts = {k: over[k] for k in ("attenuation", "mask_iter") if k in over}
        return [lambda z, step: hva_mask(z, floor=fl, **opts) * z], True
    if "mask_fn" in e.kwargs:
        return [lambda z, step: e.kwargs["mask_fn"](z) * z], True
    if "Masking" in e.cls.__name__:
        return [lambda z, step: m.mask_fn(z) * z], True
    p = e.kwargs.get("prox_penalty")
    if p is None:
        return [lambda z, step: group_soft(z, step)], False
    ps = p if isinstance(p, (list, tuple)) else [p]
    return [(lambda z, step, g=g: g(z, step_size=step)) for g in ps], False


def dev(a, b):
    s = max(1.0, float(np.max(np.abs(b))))
    return f(float(np.max(np.abs(np.asarray(a) - np.asarray(b)))) / s)


def pds_event(e, m, over, fl, W0, Y0, W1, Y1, x):
    ops, masked = prox_ops(e, m, over, fl)
    if masked:
        Y0, Y1 = Y0[None] if Y0.ndim == 3 else Y0, Y1[None] if Y1.ndim == 3 else Y1
    a = m.relaxation
    XY = np.einsum("qnij,cij->inc", Y0, x.conj())
    Wt = neg_logdet(W0 - m.mu1 * m.mu2 * XY, m.mu1)
    XW = apply(2 * Wt - W0, x)
    Yt = []
    for p, Yq in zip(ops, Y0):
        z = Yq + XW
        Yt.append(z - p(z, 1 / m.mu2))
    return dict(rule="pds", n=1, names=["filter", "dual"],
                dev=[dev(W1, a * Wt + (1 - a) * W0), dev(Y1, a * np.array(Yt) + (1 - a) * Y0)])


def admm_event(e, m, over, fl, s0, s1, x):
    ops, masked = prox_ops(e, m, over, fl)

    def up(A):
        return A[None] if masked and A.ndim == 3 else A

    a, rho = m.relaxation, m.rho
    V, Y = s0["auxiliary1"], s0["dual1"]
    Vt, Yt = up(s0["auxiliary2"]), up(s0["dual2"])
    P = len(Vt)
    W1 = s1["demix_filter"]
    # least squares: stack sqrt-weighted equations  W I = V - Y,  W X = Vt - Yt
    W = np.empty_like(W1)
    for i in range(len(W1)):
        A = np.concatenate([np.eye(W1.shape[-1])] + [x[:, i]] * P, axis=1)
        B = np.concatenate([V[i] - Y[i]] + [Vt[k][:, i] - Yt[k][:, i] for k in range(P)], axis=1)
        W[i] = np.linalg.lstsq(A.T, B.T, rcond=None)[0].T
    XW = apply(W, x)
    U = a * W + (1 - a) * V
    Ut = a * XW[None] + (1 - a) * Vt
    V1 = neg_logdet(U + Y, 1 / rho)
    Vt1 = np.array([p(Ut[k] + Yt[k], 1 / rho) for k, p in enumerate(ops)])
    return dict(rule="admm", n=1, names=["filter", "auxiliary1", "auxiliary2", "dual1", "dual2"],
                dev=[dev(W1, W), dev(s1["auxiliary1"], V1), dev(up(s1["auxiliary2"]), Vt1),
                     dev(s1["dual1"], Y + U - V1), dev(up(s1["dual2"]), Yt + Ut - Vt1)])


# ------------------------------------------------------------------ methods
def single_pair(p):
    def sel(n_sources, **kw):
        yield p
    return sel


def rule_of(e):
    n = e.cls.__name__
    if n in ("FastICA", "FastIVA", "FasterIVA"):
        return "fixed"
    if "Grad" in n:
        return "grad"
    if "PDS" in n:
        return "pds"
    if "ADMM" in n:
        return "admm"
    if n == "HVA":
        return "pds"
    if n == "FastGaussMNMF":
        return {"IP": "ip1", "IP1": "ip1", "IP2": "ip2"}[e.kwargs.get("diagonalizer_algorithm", "IP")]
    if "IPSDTA" in n:
        return "vcd"
    if n in ("GaussMNMF", "CACGMM"):
        return None
    return {"IP": "ip1", "IP1": "ip1", "IP2": "ip2", "ISS": "iss1", "ISS1": "iss1", "ISS2": "iss2", "IPA": "ipa"}[
        e.kwargs.get("spatial_algorithm", "IP")]


KEEP = ("demix_filter", "diagonalizer", "spatial", "dual", "auxiliary1", "auxiliary2", "dual1", "dual2")


def fixed_step(e, m, W):
    """The fixed-point step from W on whitened data (rows up to phase), and whether it is well determined."""
    z = np.asarray(m.whitened_input)
    if z.ndim == 2:                              # deflation, one source after the other
        new, ok = np.zeros_like(W), 1
        for n, w in enumerate(W):
            y = w @ z
            v = np.mean(m.score_fn(y) * z, axis=-1) - np.mean(m.d_score_fn(y)) * w
            size = np.linalg.norm(v)
            v = v - new[:n].T @ (new[:n] @ v)
            ok &= int(np.linalg.norm(v) > 1e-4 * size > 0)
            new[n] = v / np.linalg.norm(v)
        return new, ok
    y = np.einsum("bnc,cbt->nbt", W, z)
    r = np.sqrt((np.abs(y) ** 2).sum(axis=1))
    g = m.d_contrast_fn(r)
    T, ok = z.shape[-1], 1
    new = np.zeros_like(W)
    for b in range(z.shape[1]):
        for n in range(len(y)):
            if e.cls.__name__ == "FasterIVA":    # minimizer of w^H U w on the sphere
                lam, v = np.linalg.eigh((z[:, b] * (g[n] / (2 * r[n]))) @ z[:, b].conj().T / T)
                ok &= int(lam[1] - lam[0] > 1e-4 * lam[-1])
                new[b, n] = v[:, 0].conj()
            else:
                h = (g[n] / r[n] - m.dd_contrast_fn(r)[n]) * np.abs(y[n, b]) ** 2 / (2 * r[n])
                new[b, n] = np.mean(g[n] / (2 * r[n]) - h) * W[b, n] - (g[n] / (2 * r[n]) * y[n, b]) @ z[:, b].conj().T / T
    U, s, V = np.linalg.svd(new)
    return U @ V, int(ok and (s[:, -1] > 1e-3 * s[:, 0]).all())


def events_of(args):
    name, shape, seed, warm, tag = args
    e = wide()[name]
    rule, fam = rule_of(e), family(e)
    x = data_for(e, seed, **shape)
    C = x.shape[0]
    key = f"{name}/c{C}/{tag}/w{warm}/s{seed}"
    over = dict(plain_kwargs(e))
    import inspect
    have = inspect.signature(e.cls.__init__).parameters
    if "normalization" in have:
        over["normalization"] = False
    if "source_normalization" in have:
        over["source_normalization"] = False
    rnd = random.Random(f"{key}")
    pair = None
    if rule in ("ip2", "iss2"):
        pair = tuple(rnd.sample(range(C), 2))
        over["pair_selector"] = single_pair(pair)
    if rule == "ipa":
        over["newton_iter"] = 60
    if rule == "grad":
        over["step_size"] = rnd.choice([0.05, 0.01, 0.3])
    if rule in ("pds", "admm"):
        over["relaxation"] = rnd.choice([1, 0.7, 1.4])
        if rule == "pds":
            over["mu1"], over["mu2"] = rnd.choice([(1, 1), (0.5, 1.5), (1.3, 0.6)])
            x = 0.7 * x / max(np.linalg.svd(x.transpose(1, 0, 2), compute_uv=False).max(), 1e-9)
        else:
            over["rho"] = rnd.choice([1, 0.6, 2])
    fl = "default"
    if "HVA" in e.cls.__name__:
        opts, fl = hva_options(rnd)
        if fl == "none":
            opts, fl = dict(opts, flooring_fn=FLOORS["max"]), "max"      # exact zeros occur in the iterations
        over.update(opts)
    if e.cls.__name__ == "HVA":
        over = {k: v for k, v in over.items() if k in have}
    # (the secular equation of IPA is solved to an absolute 1e-10: no small inputs there)
    gain = rnd.choice([1, 1, 5 if rule == "ipa" else 0.02, 40]) if rule in ("ip1", "ip2", "iss1", "iss2", "ipa", "vcd") and "MNMF" not in name else 1
    x = gain * x
    key += f"/x{gain}" if gain != 1 else ""
    call = dict(call_kwargs(e, x))
    if tag == "init" and fam not in ("penalty", "fixed"):
        rng = np.random.default_rng(seed + 99)
        shp = (C, C) if x.ndim == 2 else (x.shape[1], C, C)
        V = np.eye(C) + 0.3 * rng.standard_normal(shp)
        if x.ndim == 3:
            V = V + 0.3j * rng.standard_normal(shp)
        call["diagonalizer" if fam == "fastmnmf" else "demix_filter"] = V
    got = []
    base = dict(ev="step", key=key, start=1, regular=1)

    def cb(m):
        s = {k: np.array(getattr(m, k)) for k in KEEP if getattr(m, k, None) is not None}
        if rule in ("iss1", "iss2", "ipa"):
            s["output"] = np.array(m.output)
        if rule == "grad" and len(got) == warm:
            s["gradient"] = gradient(m, m)
        got.append(s)

    evs = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = e.build(seed, callbacks=cb, **over)
            m(x.copy(), n_iter=warm + 1, **call)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev="exc", key=key, start=1, what=repr(ex)[:300])]
    a, b = got[warm], got[warm + 1]
    if rule == "fixed":
        for i, s in enumerate(got[1:]):
            W = s["demix_filter"]
            d = np.max(np.abs(W @ W.conj().swapaxes(-1, -2) - np.eye(C)))
            ev = dict(base, rule="fixed", n=C, unitary=f(d), key=f"{key}/i{i + 1}")
            want, ev["regular"] = fixed_step(e, m, got[i]["demix_filter"])
            c = np.sum(W * want.conj(), axis=-1, keepdims=True)
            ev["dev"] = f(np.abs(W - want * c / np.maximum(np.abs(c), 1e-300)).max())
            evs.append(ev)
        return evs
    if rule == "grad":
        evs.append(dict(base, **grad_event(e, a, b, over["step_size"])))
        W0 = a["demix_filter"]                      # a step that is too long may have left the filter (nearly) singular
        sv = np.linalg.svd(W0, compute_uv=False) if np.isfinite(W0).all() else np.zeros(1)
        evs[-1]["regular"] = int(sv.min() > 1e-2 and sv.max() < 20)
        return evs
    if rule == "pds":
        evs.append(dict(base, **pds_event(e, m, over, fl, a["demix_filter"], a["dual"], b["demix_filter"], b["dual"], x)))
        return evs
    if rule == "admm":
        evs.append(dict(base, **admm_event(e, m, over, fl, a, b, x)))
        return evs
    if fam == "fastmnmf":
        Q0, Q1 = a["diagonalizer"], b["diagonalizer"]
        r = np.einsum("nij,inm->mij", nmf(m), a["spatial"])
        U = cov(1 / r, x)
        evs.append(dict(base, **rows_event(rule, Q0, Q1, U, pair)))
        evs[-1]["regular"] = regular(U, Q0)
        return evs
    if rule == "vcd":
        y0 = apply(a["demix_filter"], x)
        T = x.shape[-1]
        bl = [(at, R) for at, R in blocks(m)]
        quad = np.zeros((C, T))
        inv = []
        for at, R in bl:
            Ri = np.linalg.inv(R)                       # [n, j, q, q]
            inv.append(Ri)
            yb = y0[:, at:at + R.shape[-1]]
            quad += np.einsum("npj,njpq,nqj->nj", yb.conj(), Ri, yb).real
        pi = np.ones((C, T)) if fam == "psdtf" else (m.dof + 2 * x.shape[1]) / (m.dof + 2 * quad)
        for (at, R), Ri in zip(bl, inv):
            k = R.shape[-1]
            xb = x[:, at:at + k]
            G = np.einsum("nj,njpq,cpj,dqj->pqncd", pi, np.conj(Ri), xb, xb.conj()) / T
            for i, ev in enumerate(vcd_events(a["demix_filter"][at:at + k], b["demix_filter"][at:at + k], G)):
                evs.append(dict(base, **ev, key=f"{key}/bin{at + i}"))
        return evs
    if rule in ("iss1", "iss2", "ipa"):
        y0, y1 = a["output"], b["output"]
        phi = weights(e, m, y0, fam)
        W0 = None
        ev = iss1_event(y0, y1, phi) if rule == "iss1" else iss2_event(y0, y1, phi, pair) if rule == "iss2" \
            else ipa_event(y0, y1, phi)
        evs.append(dict(base, **ev))
        evs[-1]["regular"] = int(np.isfinite(y1).all() and np.abs(y1).max() < 1e4)
        return evs
    W0, W1 = a["demix_filter"], b["demix_filter"]
    y0 = apply(W0, x)
    phi = weights(e, m, y0, fam)
    U = cov(phi, x)
    evs.append(dict(base, **rows_event(rule, W0, W1, U, pair)))
    evs[-1]["regular"] = regular(U, W0)
    return evs


def regular(U, W):
    return int(np.linalg.cond(U).max() < 1e7 and np.linalg.cond(W).max() < 1e5)


def grad_event(e, a, b, eta):
    W0, W1, g = a["demix_filter"], b["demix_filter"], a["gradient"]
    H = W0.conj().swapaxes(-1, -2)
    M = g @ H
    eye = np.eye(W0.shape[-1])
    out = {}
    for k, A in (("hol", M), ("nonhol", M * (1 - eye))):
        step = A @ W0 if "NaturalGrad" in e.cls.__name__ else A @ np.linalg.inv(H)
        D = (W1 - W0) / eta
        # central differences are good to about 1e-7
        out[k] = f(1e-2 * np.max(np.abs(D + step)) / max(1.0, np.max(np.abs(step))))
    return dict(rule="grad", n=1, holonomic=int(bool(e.kwargs.get("is_holonomic", False))), **out)


# ------------------------------------------------------------------ functions alone
def function_events(args):
    rule, n, bins, frames, seed = args
    rng = np.random.default_rng(seed)
    key = f"function/{rule}/n{n}b{bins}/s{seed}"
    base = dict(ev="step", key=key, start=1, regular=1)

    def c(*s):
        return rng.standard_normal(s) + 1j * rng.standard_normal(s)

    pair = tuple(int(v) for v in rng.permutation(n)[:2])
    try:
        if rule in ("ip1", "ip2", "vcd"):
            W = c(bins, n, n)
        if rule in ("ip1", "ip2"):
            A = c(bins, n, n, 2 * n)
            U = A @ A.conj().swapaxes(-1, -2) * 10 ** rng.uniform(-8, 8, (bins, n, 1, 1))
            W1 = update_by_ip1(W.copy(), U.copy()) if rule == "ip1" else \
                update_by_ip2(W.copy(), U.copy(), pair_selector=single_pair(pair))
            return [dict(base, **rows_event(rule, W, W1, U, pair if rule == "ip2" else None))]
        if rule == "vcd":
            T = 6 * n
            R = np.empty((1, bins, bins, n, n, n), complex)
            z = c(bins, n, T)
            for s in range(n):
                B = c(T, bins, bins + 2)
                S = B @ B.conj().swapaxes(-1, -2)
                for i in range(bins):
                    for j in range(bins):
                        R[0, i, j, s] = np.einsum("t,ct,dt->cd", S[:, i, j], z[i], z[j].conj()) / T
            W1 = update_by_block_decomposition_vcd(W[None].copy(), R.copy())[0]
            return [dict(base, **ev, key=f"{key}/bin{i}") for i, ev in enumerate(vcd_events(W, W1, R[0]))]
        Y = c(n, bins, frames) * rng.uniform(0.3, 3, (n, 1, frames)) * 10 ** rng.uniform(*((-1.5, 1.5) if rule == "ipa" else (-3.5, 3)), (1, bins, 1))
        phi = rng.uniform(0.1, 5, (n, bins, frames)) * 10 ** rng.uniform(-1.5, 1.5, (n, bins, 1))
        if rule == "iss1":
            return [dict(base, **iss1_event(Y, update_by_iss1(Y.copy(), phi.copy()), phi))]
        if rule == "iss2":
            return [dict(base, **iss2_event(Y, update_by_iss2(Y.copy(), phi.copy(), pair_selector=single_pair(pair)), phi, pair))]
        return [dict(base, **ipa_event(Y, update_by_ipa(Y.copy(), phi.copy(), max_iter=60,
                                                        normalization=bool(seed % 2)), phi))]
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev="exc", key=key, start=1, what=repr(ex)[:300])]


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("UpdateRulesMC", "UpdateRules")
    if not ctx.quick:
        ctx.model("UpdateRulesMC", "UpdateRules3", timeout=800)
    jobs = []
    for name, e in sorted(wide().items()):
        if rule_of(e) is None:
            continue
        for s in SHAPES:
            if ctx.quick and s["n_ch"] == 4 and rnd.random() < 0.5:
                continue
            for k in range((4 if rule_of(e) == "fixed" else 1) if ctx.quick else 20):
                jobs.append((name, s, ctx.seed * 10 + k, rnd.choice((0, 0, 1, 3)), rnd.choice(("zero", "init"))))
    rnd.shuffle(jobs)
    fjobs = [(r, n, b, 40, ctx.seed * 100 + k) for r in ("ip1", "ip2", "vcd", "iss1", "iss2", "ipa") for n in (2, 3, 4, 5)
             for b in (1, 3) for k in range(3 if ctx.quick else 100)]
    mjobs = [(c, n, b, ctx.seed * 100 + k) for c in ("MaskingPDSHVA", "MaskingADMMHVA", "HVA") for n in (2, 3, 4)
             for b in (2, 3, 5, 8, 9) for k in range(4 if ctx.quick else 100)]
    evs = []
    for t in pmap(events_of, jobs) + pmap(function_events, fjobs) + pmap(mask_events, mjobs):
        evs += t
    ctx.extra.update(methods=len({j[0] for j in jobs}), steps=len(jobs), function_steps=len(fjobs), masks=len(mjobs),
                     irregular=sum(1 for v in evs if v.get("regular") == 0),
                     by_rule={r: sum(v.get("rule") == r for v in evs) for r in
                              ("ip1", "ip2", "iss1", "iss2", "ipa", "vcd", "grad", "pds", "admm", "fixed", "mask")})
    ctx.sample(evs[0])
    ctx.sample(evs[-1])
    ctx.validate("UpdateTrace", evs, ntraces=len(jobs) + len(fjobs) + len(mjobs))
    ctx.assumptions += ["residuals below 1e-6 are rounding", "gradients of recorded losses are central differences (1e-4)"]

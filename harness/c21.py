"""C21: every separate update of the source and spatial models is the documented closed form."""
import copy
import random
import warnings

import numpy as np

from iterlib import own_fault
from objective import blocks as cov_blocks, nmf
from rt import pmap, q
from ssspy.bss.cacgmm import CACGMM
from ssspy.bss.ilrma import GGDILRMA, TILRMA, GaussILRMA
from ssspy.bss.ipsdta import TIPSDTA, GaussIPSDTA
from ssspy.bss.iva import AuxGaussIVA, GradGaussIVA, NaturalGradGaussIVA
from ssspy.bss.mnmf import FastGaussMNMF, GaussMNMF

PARAMS = ("basis", "activation", "latent", "spatial", "diagonalizer", "posterior", "mixing", "covariance", "variance")
LOW = 1e-8          # the library floors at 1e-10


class Stop(Exception):
    pass


def build(c, cb):
    """the object of a configuration"""
    f = c["fam"]
    rng = np.random.default_rng(c["seed"])
    com = dict(callbacks=cb, record_loss=False)
    n, K = c["n"], c["k"]
    if f in ("gauss", "t", "ggd"):
        kw = dict(n_basis=K, domain=c["p2"] / 2, partitioning=bool(c["part"]), spatial_algorithm=c["sp"],
                  normalization=bool(c["norm"]), rng=rng, **com)
        if f == "gauss":
            return GaussILRMA(source_algorithm=c["alg"], **kw)
        return TILRMA(dof=c["nu"], source_algorithm=c["alg"], **kw) if f == "t" else GGDILRMA(beta=c["b10"] / 10, **kw)
    if f == "mnmf":
        return GaussMNMF(n_basis=K, n_sources=n, partitioning=bool(c["part"]), normalization=bool(c["norm"]), rng=rng, **com)
    if f == "fastmnmf":
        return FastGaussMNMF(n_basis=K, n_sources=n, normalization=bool(c["norm"]),
                             diagonalizer_algorithm="IP2" if c["sp"] == "IP2" else "IP1", rng=rng, **com)
    if f in ("psdtf", "tpsdtf"):
        kw = dict(n_basis=K, n_blocks=c["blocks"], source_normalization=bool(c["norm"]), rng=rng, **com)
        return GaussIPSDTA(**kw) if f == "psdtf" else TIPSDTA(dof=c["nu"], **kw)
    if f == "mixture":
        return CACGMM(n_sources=n, normalization=bool(c["norm"]), rng=rng, **com)
    if c["cls"] == "aux":
        return AuxGaussIVA(spatial_algorithm=c["sp"], **com)
    return (GradGaussIVA if c["cls"] == "grad" else NaturalGradGaussIVA)(step_size=0.05, **com)


def mixture_of(c, C):
    rng = np.random.default_rng(c["seed"] + 1)
    I, J = c["bins"], c["frames"]
    s = 10.0 ** rng.uniform(-1, 1, (C, I, J)) * (rng.standard_normal((C, I, J)) + 1j * rng.standard_normal((C, I, J)))
    A = rng.standard_normal((I, C, C)) + 1j * rng.standard_normal((I, C, C))
    return np.einsum("icd,dij->cij", A, s)


def away(m, c):
    """move the parameters away from where the iterations lead"""
    rng = np.random.default_rng(c["seed"] + 2)
    e = c["p2"] / 4
    if hasattr(m, "activation"):
        m.activation = m.activation * 10.0 ** (e * (rng.uniform(-1, 1, m.activation.shape) + rng.choice([-1, 0, 1.5])))
    if c["fam"] == "mixture":
        B = m.covariance
        A = rng.standard_normal(B.shape) + 1j * rng.standard_normal(B.shape)
        m.covariance = B + 0.3 * A @ A.conj().swapaxes(-2, -1)
        a = m.mixing * 10.0 ** rng.uniform(-1, 1, m.mixing.shape)
        m.mixing = a / a.sum(axis=0)


def flat(v):
    if isinstance(v, (tuple, list)):
        return [np.array(a) for a in v]
    return [np.array(v)]


def state(m):
    out = {}
    for p in PARAMS:
        v = getattr(m, p, None)
        if v is not None:
            out[p] = flat(v)
    W = getattr(m, "demix_filter", None)
    if W is not None:
        out["filter"] = flat(W)
    elif not hasattr(m, "diagonalizer") and not hasattr(m, "posterior") and "spatial" not in out:
        out["filter"] = flat(m.output)
    return out


def changed(a, b):
    return sorted(p for p in set(a) | set(b)
                  if p not in a or p not in b or len(a[p]) != len(b[p])
                  or any(not np.array_equal(u, v, equal_nan=True) for u, v in zip(a[p], b[p])))


def rel(a, b):
    """largest deviation relative to the size of the array"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 1e9
    s = float(np.max(np.abs(b)))
    d = float(np.max(np.abs(a - b)))
    return d / s if s > 0 else d


def signals(m):
    W = getattr(m, "demix_filter", None)
    return m.output if W is None else np.einsum("inc,cij->nij", W, m.input)


# ------------------------------------------------------------------ regular states
def regular(m, fam):
    if fam in ("gauss", "t", "ggd", "mnmf", "fastmnmf"):
        if min(m.basis.min(), m.activation.min()) < LOW:
            return 0
        lam = nmf(m)
        if fam in ("gauss", "t", "ggd"):
            return int((lam ** (2 / m.domain)).min() > 1e-7 and np.abs(signals(m)).min() > 1e-6)
        if fam == "fastmnmf":
            return int(np.einsum("nij,inm->mij", lam, m.spatial).min() > 1e-7)
        for i in range(lam.shape[1]):
            ev = np.linalg.eigvalsh(np.einsum("nj,ncd->jcd", lam[:, i], m.spatial[:, i]))
            if ev.min() < 1e-6 or (ev[..., 0] / ev[..., -1]).min() < 1e-6:
                return 0
        ev = np.linalg.eigvalsh(m.spatial)
        return int((ev[..., 0] / ev[..., -1]).min() > 1e-6)
    if fam in ("psdtf", "tpsdtf"):
        for _, R in cov_blocks(m):
            ev = np.linalg.eigvalsh(R)
            if ev.min() < 1e-6 or (ev[..., 0] / ev[..., -1]).min() < 1e-6:
                return 0
        Ts = m.basis if isinstance(m.basis, tuple) else (m.basis,)
        return int(m.activation.min() > LOW and min(np.linalg.norm(T, axis=(-2, -1)).min() for T in Ts) > 1e-6)
    if fam == "mixture":
        ev = np.linalg.eigvalsh(m.covariance)
        return int((ev[..., 0] / ev[..., -1]).min() > 1e-6 and m.mixing.min() > 1e-8)
    return 1


# ------------------------------------------------------------------ closed forms
def multiplicative(old, num, den, expo):
    return old * (num / den) ** (expo[0] / expo[1])


def nmf_weights(m, c):
    """(w1, w2): d objective / d lambda is proportional to w2 - w1"""
    lam = nmf(m)
    f = c["fam"]
    if f == "mnmf":
        N, I, J = lam.shape
        w1, w2 = np.zeros_like(lam), np.zeros_like(lam)
        XX = m.instant_covariance                                   # [i, j, c, d]
        for i in range(I):
            Ri = np.linalg.inv(np.einsum("nj,ncd->jcd", lam[:, i], m.spatial[:, i]))
            w1[:, i] = np.einsum("jab,jbc,jcd,nda->nj", Ri, XX[i], Ri, m.spatial[:, i]).real
            w2[:, i] = np.einsum("jab,nba->nj", Ri, m.spatial[:, i]).real
        return w1, w2
    if f == "fastmnmf":
        qx = np.abs(np.einsum("imc,cij->mij", m.diagonalizer, m.input)) ** 2
        r = np.einsum("nij,inm->mij", lam, m.spatial)
        return np.einsum("inm,mij->nij", m.spatial, qx / r ** 2), np.einsum("inm,mij->nij", m.spatial, 1 / r)
    y = np.abs(signals(m))
    p = m.domain
    if f == "gauss":
        return y ** 2 / lam ** ((p + 2) / p), 1 / lam
    if f == "t":
        r = m.dof / (m.dof + 2) * lam ** (2 / p) + 2 / (m.dof + 2) * y ** 2
        return y ** 2 / (r * lam), 1 / lam
    return m.beta / 2 * y ** m.beta / lam ** ((m.beta + p) / p), 1 / lam


def psdtf_parts(m, c):
    """per group of equally sized blocks: (T, signals, inverse model); and the frame weights"""
    y = signals(m)
    Ts = m.basis if isinstance(m.basis, tuple) else (m.basis,)
    at, parts, quad = 0, [], np.zeros((y.shape[0], y.shape[2]))
    for T in Ts:
        B, s = T.shape[2], T.shape[3]
        Y = y[:, at:at + B * s].reshape(y.shape[0], B, s, -1)
        at += B * s
        Ri = np.linalg.inv(np.einsum("nkbpq,nkj->njbpq", T, m.activation))
        parts.append((T, Y, Ri))
        quad += np.einsum("nbpj,njbpq,nbqj->nj", Y.conj(), Ri, Y).real
    pi = np.ones_like(quad) if c["fam"] == "psdtf" else (m.dof + 2 * m.n_bins) / (m.dof + 2 * quad)
    return parts, pi


def riccati(new, P, Q, old):
    """relative residual of new P new = old Q old"""
    want = old @ Q @ old
    got = new @ P @ new
    d = np.linalg.norm(got - want, axis=(-2, -1)) / np.linalg.norm(want, axis=(-2, -1))
    h = np.linalg.norm(new - new.conj().swapaxes(-2, -1), axis=(-2, -1)) / np.linalg.norm(new, axis=(-2, -1))
    ev = np.linalg.eigvalsh((new + new.conj().swapaxes(-2, -1)) / 2)
    d = np.maximum(np.maximum(d, h), -ev[..., 0] / ev[..., -1])
    size = np.sqrt(np.linalg.norm(want, axis=(-2, -1)) / np.linalg.norm(P, axis=(-2, -1)))
    return float(np.max(np.where(size > 1e-3, d, 0)))            # vanishing covariances are floored


def expected(m, c, block, expo):
    """function of the updated object: relative deviation from the closed form anchored at m"""
    f = c["fam"]
    if f in ("gauss", "t", "ggd", "mnmf", "fastmnmf") and block in ("basis", "activation", "latent"):
        w1, w2 = nmf_weights(m, c)
        T, V = m.basis, m.activation
        if c["part"]:
            Z = m.latent
            sub = {"basis": ("nij,nk,kj->ik", (Z, V)), "activation": ("nij,nk,ik->kj", (Z, T)), "latent": ("nij,ik,kj->nk", (T, V))}
        else:
            sub = {"basis": ("nij,nkj->nik", (V,)), "activation": ("nij,nik->nkj", (T,))}
        s, ops = sub[block]
        num, den = np.einsum(s, w1, *ops), np.einsum(s, w2, *ops)
        want = multiplicative(getattr(m, block), num, den, expo)
        if block == "latent":
            want = want / want.sum(axis=0)
        low = want < 1e-8
        return lambda new: float(np.max(np.where(low, 0, np.abs(getattr(new, block) - want) / np.maximum(want, 1e-300)))) \
            if getattr(new, block).shape == want.shape else 1e9
    if f == "mnmf" and block == "spatial":
        lam, H = nmf(m), m.spatial
        P, Q = np.zeros_like(H), np.zeros_like(H)
        for i in range(lam.shape[1]):
            Ri = np.linalg.inv(np.einsum("nj,ncd->jcd", lam[:, i], H[:, i]))
            P[:, i] = np.einsum("nj,jab->nab", lam[:, i], Ri)
            Q[:, i] = np.einsum("nj,jab,jbc,jcd->nad", lam[:, i], Ri, m.instant_covariance[i], Ri)
        return lambda new: riccati(new.spatial, P, Q, H)
    if f == "fastmnmf" and block == "spatial":
        lam = nmf(m)
        qx = np.abs(np.einsum("imc,cij->mij", m.diagonalizer, m.input)) ** 2
        r = np.einsum("nij,inm->mij", lam, m.spatial)
        want = multiplicative(m.spatial, np.einsum("nij,mij->inm", lam, qx / r ** 2), np.einsum("nij,mij->inm", lam, 1 / r), expo)
        return lambda new: float(np.max(np.abs(new.spatial - want) / want)) if want.min() > 1e-8 else 0.0
    if f in ("psdtf", "tpsdtf"):
        parts, pi = psdtf_parts(m, c)
        V = m.activation
        if block == "basis":
            PQ = [(np.einsum("nkj,njbpq->nkbpq", V, Ri),
                   np.einsum("nkj,nj,njbpr,nbrj,nbsj,njbsq->nkbpq", V, pi, Ri, Y, Y.conj(), Ri)) for T, Y, Ri in parts]

            def dev(new):
                Ts = new.basis if isinstance(new.basis, tuple) else (new.basis,)
                return max(riccati(Tn, P, Q, T) for Tn, (P, Q), (T, _, _) in zip(Ts, PQ, parts))
            return dev
        num = sum(np.einsum("nj,nbpj,njbpr,nkbrs,njbsq,nbqj->nkj", pi, Y.conj(), Ri, T, Ri, Y).real for T, Y, Ri in parts)
        den = sum(np.einsum("njbpr,nkbrp->nkj", Ri, T).real for T, Y, Ri in parts)
        want = multiplicative(V, num, den, expo)
        return lambda new: float(np.max(np.abs(new.activation - want) / np.abs(want)))
    if f == "mixture":
        z = m.input / np.linalg.norm(m.input, axis=0)
        C = z.shape[0]
        zBz = np.einsum("cij,nicd,dij->nij", z.conj(), np.linalg.inv(m.covariance), z).real
        if block == "posterior":
            ld = np.sum(np.log(np.linalg.eigvalsh(m.covariance)), axis=-1)
            L = (np.log(m.mixing) - ld)[:, :, None] - C * np.log(zBz)
            g = np.exp(L - L.max(axis=0))
            want = g / g.sum(axis=0)
            return lambda new: rel(new.posterior, want)
        g = m.posterior
        a = g.mean(axis=-1)
        B = C * np.einsum("nij,cij,dij->nicd", g / zBz, z, z.conj()) / g.sum(axis=-1)[:, :, None, None]
        return lambda new: max(rel(new.mixing, a), rel(new.covariance, B))
    if f == "variance":
        want = np.mean(np.abs(signals(m)) ** 2, axis=1)
        return lambda new: rel(new.variance, want)
    raise KeyError((f, block))


NAMES = {"gauss": "{}_{a}", "t": "{}_{a}", "ggd": "{}_{a}", "mnmf": "{}", "fastmnmf": "{}", "psdtf": "{}_mm", "tpsdtf": "{}_mm"}


def perform(m, c, block):
    f = c["fam"]
    if block == "once":
        return m.update_once()
    if block == "demix":
        if f == "variance":
            return None
        return m.update_spatial_model()
    if block == "normalize":
        if f in ("psdtf", "tpsdtf"):
            return m.normalize_block_decomposition_psdtf()
        return m.normalize_covariance() if f == "mixture" else m.normalize()
    if block == "diagonalizer":
        return m.update_diagonalizer()
    if block == "posterior":
        return m.update_posterior()
    if block == "mixture":
        return m.update_parameters()
    if block == "variance":
        return m.update_source_model()
    if block == "spatial":
        return m.update_spatial()
    return getattr(m, "update_" + NAMES[f].format(block, a=c["alg"].lower()))()


def deviation(a, b):
    """largest relative deviation of the states a, b; phases of filters and signals are free"""
    if set(a) != set(b):
        return 1e9
    d = 0.0
    for p in a:
        for u, v in zip(a[p], b[p]):
            if p == "filter":
                u, v = np.abs(u), np.abs(v)
            d = max(d, rel(u, v))
    return d


def events_of(case):
    c, expo = case["c"], case["expo"]
    f = c["fam"]
    key = f"{f}/{'part' if c['part'] else 'full'}/{c['alg']}/p{c['p2']}/{c['sp']}/k{c['k']}/case{case['id']}"
    C = c["n"] if f in ("gauss", "t", "ggd", "psdtf", "tpsdtf", "variance") else c["c"]
    if f == "mnmf":
        C = min(C, 3)
    if f in ("psdtf", "tpsdtf"):
        c = dict(c, blocks=min(c["blocks"], c["bins"]))
    evs, held = [], {}

    def cb(m):
        held["n"] = held.get("n", -1) + 1
        if held["n"] == c["before"]:
            held["m"] = m
            raise Stop

    x = mixture_of(c, C)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            try:
                build(c, cb)(x, n_iter=c["before"] + 1)
            except Stop:
                pass
            m = held["m"]
            m.callbacks = None
            if c["far"]:
                away(m, c)
            if f == "variance":
                m.update_source_model()
            for k, block in enumerate(case["acts"]):
                if block == "mixture" and getattr(m, "posterior", None) is None:
                    m.update_posterior()
                reg = regular(m, f)
                held["at"] = block
                before = state(m)
                new = copy.deepcopy(m)
                if block == "once":
                    for b in case["schedule"]:
                        if f == "variance" and b == "demix":
                            new = None
                            break
                        perform(new, c, b)
                    old = copy.deepcopy(m)
                    perform(m, c, "once")
                    if f == "variance":
                        dev = expected(old, c, "variance", expo)(m)
                    else:
                        dev = deviation(state(m), state(new))
                    evs.append(dict(ev="once", key=f"{key}/{k}", c=c, did=case["schedule"], regular=reg, dev=q(dev),
                                    changed=changed(before, state(m))))
                    continue
                dev = expected(m, c, block, expo) if reg else None
                perform(m, c, block)
                now = state(m)
                evs.append(dict(ev="block", key=f"{key}/{k}", c=c, block=block, regular=reg, changed=changed(before, now),
                                finite=int(all(np.all(np.isfinite(a)) for p in now.values() for a in p)),
                                resid=q(dev(m)) if reg else 0))
        except np.linalg.LinAlgError:
            # the filters ran into a singular state (judged by C05, C10)
            evs.append(dict(ev="skip" if held.get("at", "once") == "once" else "exc", key=key, what="singular"))
        except Exception as ex:  # noqa: BLE001
            if own_fault(ex):
                raise
            evs.append(dict(ev="exc", key=key, c=c, what=repr(ex)[:300]))
    for i, v in enumerate(evs):
        v["start"] = int(i == 0)
    return evs


def run(ctx):
    ctx.model("SourceMC", "SourceMC")
    ctx.model("SourceMC", "SourceArith" if ctx.quick else "SourceArithBig")
    cases = ctx.generate("SourceGen", "SourceGen" if ctx.quick else "SourceGenBig", extra=("-seed", str(ctx.seed)))
    random.Random(ctx.seed).shuffle(cases)
    evs = []
    for t in pmap(events_of, cases):
        evs += t
    blk = [v for v in evs if v["ev"] == "block"]
    ctx.extra.update(cases=len(cases), blocks=len(blk), iterations=sum(v["ev"] == "once" for v in evs),
                     singular_filters=sum(v["ev"] == "skip" for v in evs),
                     irregular_not_judged=sum(v.get("regular") == 0 for v in evs),
                     judged={f"{f}/{b}": sum(v["c"]["fam"] == f and v["block"] == b and v["regular"] for v in blk)
                             for f, b in sorted({(v["c"]["fam"], v["block"]) for v in blk})})
    ctx.sample(evs[0])
    ctx.sample(evs[-1])
    ctx.validate("SourceTrace", evs, ntraces=len(cases))
    ctx.assumptions += ["closed forms are evaluated in double precision and compared to 2e-5",
                        "states in which a flooring is active are observed but not judged"]

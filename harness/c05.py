"""C05: the recorded loss of majorization-minimization methods never increases."""
import math
import random
import re
import warnings

import numpy as np

from c12 import norm_on
from iterlib import call_kwargs, data_for, own_fault, plain_kwargs
from objective import blocks, family, nmf
from rt import pmap, qs
from runs import options, wide

SHAPES = [dict(n_ch=2, n_bins=5, n_frames=48), dict(n_ch=3, n_bins=4, n_frames=60), dict(n_ch=4, n_bins=3, n_frames=80)]
FAMS = ("gauss", "t", "ggd", "psdtf", "tpsdtf", "mnmf", "fastmnmf", "mixture", "tf")


def regular(m, fam):
    """no flooring active, likelihood not degenerate"""
    ok = True
    F = getattr(m, "diagonalizer", None) if fam == "fastmnmf" else getattr(m, "demix_filter", None)
    if F is not None:
        ok &= bool(np.all(np.isfinite(F)) and np.all(np.linalg.cond(F) < 1e6))
    if fam in ("gauss", "t", "ggd", "mnmf", "fastmnmf"):
        ok &= bool(m.basis.min() > 1e-9 and m.activation.min() > 1e-9)
        lam = nmf(m)
        if fam in ("gauss", "t", "ggd"):
            r = lam ** (2 / m.domain)
            ok &= bool(r.min() > 1e-7)
            if fam == "ggd":
                W = getattr(m, "demix_filter", None)
                y = m.output if W is None else (W @ m.input.transpose(1, 0, 2)).transpose(1, 0, 2)
                ok &= bool(np.abs(y).min() > 1e-5)
    if fam == "mnmf":
        for i in range(lam.shape[1]):
            R = np.einsum("nj,ncd->jcd", lam[:, i], m.spatial[:, i])
            ok &= bool(np.linalg.eigvalsh(R).min() > 1e-5)
        ok &= bool(np.linalg.eigvalsh(m.spatial).min() > 1e-7)
    if fam == "fastmnmf":
        ok &= bool(m.spatial.min() > 1e-9)
        ok &= bool(np.einsum("nij,inm->mij", lam, m.spatial).min() > 1e-6)
    if fam in ("psdtf", "tpsdtf"):
        for _, R in blocks(m):
            ok &= bool(np.linalg.eigvalsh(R).min() > 1e-6)
        for t in m.basis if isinstance(m.basis, tuple) else (m.basis,):
            ok &= bool(np.linalg.eigvalsh(t).min() > 1e-7)
    if fam == "mixture":
        ev = np.linalg.eigvalsh(m.covariance)
        ok &= bool((ev[..., 0] / ev[..., -1]).min() > 1e-6) and bool(m.mixing.min() > 1e-9)
    if fam == "tf":
        W = getattr(m, "demix_filter", None)
        y = m.output if W is None else (W @ m.input.transpose(1, 0, 2)).transpose(1, 0, 2)
        ok &= bool(np.linalg.norm(y, axis=1).min() > 1e-4)
    return int(ok)


def start(e, fam, seed, x):
    """a random valid starting filter"""
    C, nb, _ = x.shape
    rng = np.random.default_rng(seed + 77)
    W = np.eye(C) + 0.3 * (rng.standard_normal((nb, C, C)) + 1j * rng.standard_normal((nb, C, C)))
    return {"diagonalizer" if fam == "fastmnmf" else "demix_filter": W}


def sources(e, fam, seed, x):
    """source parameters far above or below the observations"""
    C, I, J = x.shape
    C = e.kwargs.get("n_sources") or C
    rng = np.random.default_rng([seed + 177, *x.shape])
    K = e.kwargs.get("n_basis", 2)
    p = e.kwargs.get("domain", 2)
    g = np.mean(np.abs(x) ** 2)
    shift = rng.choice([-2.5, 1, 2, 2.5])

    def draw(*shape):
        return 10.0 ** rng.uniform(-0.5, 0.5, shape)

    lead = () if e.kwargs.get("partitioning") else (C,)
    T = draw(*lead, I, K) ** (p / 2)
    V = draw(*lead, K, J) ** (p / 2)
    return {"basis": T * (g * 10.0 ** shift) ** (p / 2) / K, "activation": V}


def events_of(args):
    name, shape, seed, tag, n_iter, blocks_too = args
    e = wide()[name]
    fam = family(e)
    x = data_for(e, seed, **shape)
    key = f"{name}/c{shape['n_ch']}f{shape['n_bins']}/{tag}/s{seed}"
    _, norm = norm_on(e)
    base = dict(fam=fam, aux=int(e.cls.__name__.startswith("Aux")), part=int(bool(e.kwargs.get("partitioning"))),
                norm=int(bool(norm)), variance=int("GaussIVA" in name))
    over = dict(plain_kwargs(e)) if tag in ("plain", "init", "gain", "source") else options(e, tag)
    call = dict(call_kwargs(e, x))
    if tag == "init" and fam not in ("mnmf", "mixture"):
        call.update(start(e, fam, seed, x))
    if tag == "source" and fam not in ("psdtf", "tpsdtf"):
        call.update(sources(e, fam, seed, x))
    if tag == "gain":
        x = x * 5
    evs = []
    state = dict(k=-1, size=1.0, reg=1)

    def inc(new, old):
        return qs((new - old) / max(1.0, abs(old), abs(new), 1e-5 * state["size"])) if math.isfinite(new) and math.isfinite(old) else 2 * 10**9

    def cb(m):
        if state["k"] < 0:                      # first evaluation: the parameters now exist
            state["size"] = abs(m.loss[-1]) / 4
            if blocks_too:
                for a in dir(type(m)):
                    if a.startswith("update_") and a != "update_once" and callable(getattr(m, a)):
                        wrap(m, a)
        else:
            r = regular(m, fam) and state["reg"]
            evs.append(dict(base, ev="step", key=f"{key}/i{state['k'] + 1}", k=state["k"] + 1, inc=inc(m.loss[-1], m.loss[-2]),
                            regular=int(bool(r)), block=""))
        state["reg"] = regular(m, fam)
        state["k"] += 1

    def wrap(m, a):
        f = getattr(m, a)

        def g(*args, **kw):
            before = m.compute_loss()
            out = f(*args, **kw)
            evs.append(dict(base, ev="block", key=f"{key}/i{state['k'] + 1}/{a}", k=state["k"] + 1, block=a,
                            inc=inc(m.compute_loss(), before), regular=int(state["reg"] and regular(m, fam))))
            return out

        setattr(m, a, g)

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = e.build(seed, callbacks=cb, **over)
            if tag == "source" and fam in ("psdtf", "tpsdtf"):
                watchers, m.callbacks = m.callbacks, None
                m(x.copy(), n_iter=0, **call)
                m.callbacks = watchers
                rng = np.random.default_rng([seed + 177, *x.shape])
                m.activation = m.activation * 10.0 ** (rng.uniform(-1, 1, m.activation.shape) + rng.choice([-1.5, 0, 1.5]))
            m(x.copy(), n_iter=n_iter, **call)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        evs.append(dict(base, ev="exc", key=key, what=repr(ex)[:300], k=state["k"] + 1, regular=int(bool(state["reg"]))))
        return evs
    evs.append(dict(base, ev="run", key=key, steps=sum(v["ev"] == "step" for v in evs), k=0, inc=0, regular=1, block=""))
    return evs


TAGS = ("plain", "default", "init", "gain", "lastref", "source")
NMF = ("gauss", "t", "ggd", "mnmf", "fastmnmf", "psdtf", "tpsdtf")


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("Descent", "Descent" if ctx.quick else "DescentBig", timeout=800)
    jobs = []
    for name, e in sorted(wide().items()):
        if family(e) not in FAMS or (family(e) == "tf" and not e.cls.__name__.startswith("Aux")):
            continue
        tags = [t for t in TAGS if t in ("plain", "default", "init", "gain") or (t == "source" and family(e) in NMF)
                or (t != "source" and options(e, t) is not None)]
        for s in SHAPES:
            some = rnd.sample(tags, 2) if ctx.quick else tags
            if "/x/p" in name and "source" not in some:
                some.append("source")
            for tag in some:
                for k in range(1 if ctx.quick else 4):
                    jobs.append((name, s, ctx.seed + k, tag, 6 if ctx.quick else 15, tag == "source" or rnd.random() < 0.5))
    rnd.shuffle(jobs)
    evs = []
    for t in pmap(events_of, jobs):
        evs += t
    ctx.extra.update(runs=len(jobs), configurations=len({j[0] for j in jobs}), steps=sum(v["ev"] == "step" for v in evs),
                     blocks=sum(v["ev"] == "block" for v in evs),
                     irregular_skipped=sum(1 for v in evs if v.get("regular") == 0))
    seen = {re.split(r"/c\d", v["key"])[0] for v in evs if v["ev"] == "step" and v["regular"]}
    ctx.extra["configurations_never_regular"] = sorted({j[0] for j in jobs} - seen)
    for v in evs:
        v["start"] = 1
    ctx.sample(evs[0])
    ctx.sample(evs[-1])
    ctx.validate("DescentTrace", evs, ntraces=len(jobs))
    ctx.assumptions += ["an increase below 1e-9 of the size of the objective is rounding",
                        "states where flooring is active or the likelihood is degenerate are observed but not judged"]

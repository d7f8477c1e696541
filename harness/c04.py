"""C04: the returned signals are what the final parameters say."""
import numpy as np

from c06 import cint, toint
from catalog import Entry
from iterlib import call_kwargs, catalogue, data_for, has_loss, own_fault
from rt import pmap, q, rel

from ssspy.bss.cacgmm import CACGMM
from ssspy.bss.mnmf import FastGaussMNMF, GaussMNMF


def extra_entries():
    E = {}

    def add(name, cls, kw):
        E[name] = Entry(name, cls, kw, seeded=True)

    for ns in (2, 3, 4):
        add(f"GaussMNMF/src{ns}", GaussMNMF, dict(n_basis=2, n_sources=ns))
        add(f"GaussMNMF/part/src{ns}", GaussMNMF, dict(n_basis=3, n_sources=ns, partitioning=True))
        add(f"FastGaussMNMF/src{ns}", FastGaussMNMF, dict(n_basis=2, n_sources=ns))
        add(f"CACGMM/src{ns}", CACGMM, dict(n_sources=ns))
        add(f"CACGMM/noalign/src{ns}", CACGMM, dict(n_sources=ns, permutation_alignment=False))
    return E


def entry(name):
    return catalogue().get(name) or extra_entries()[name]


def kind_of(m):
    n = type(m).__name__
    if "MNMF" in n:
        return "wiener"
    if n == "CACGMM":
        return "mask"
    if getattr(m, "whitened_input", None) is not None:
        return "whitened"
    return "signal" if m.demix_filter is None else "filter"


def bins_first(a):
    a = np.asarray(a)
    return a[np.newaxis] if a.ndim == 2 else a.transpose(1, 0, 2)


def linear(y, x):
    """residual of the best linear map per bin, conditioning of the map (rows normalised)"""
    Y, X = bins_first(y), bins_first(x)
    M = np.stack([np.linalg.lstsq(X[b].T, Y[b].T, rcond=None)[0].T for b in range(len(X))])
    r = max(rel(Y[b], M[b] @ X[b]) for b in range(len(X)))
    nrm = np.linalg.norm(M, axis=-1, keepdims=True)
    s = np.linalg.svd(M / np.where(nrm > 0, nrm, 1), compute_uv=False)
    return r, float(np.min(s[:, -1] / s[:, 0]))


def model_cov(m):
    """Spatial covariance times power of every source: (n, F, T, c, c)"""
    T, V = m.basis, m.activation
    if m.partitioning:
        lam = np.einsum("nk,fk,kt->nft", m.latent, T, V)
    else:
        lam = np.einsum("nfk,nkt->nft", T, V)
    if hasattr(m, "diagonalizer"):
        A = np.linalg.inv(m.diagonalizer)
        H = np.einsum("fcd,fnd,fed->nfce", A, m.spatial, A.conj())
    else:
        H = m.spatial
    return lam[..., None, None] * H[:, :, None]


def wiener(m, x):
    R = model_cov(m)
    tot = R.sum(axis=0)
    z = np.linalg.solve(tot, x.transpose(1, 2, 0)[..., None])[..., 0]
    return np.einsum("nftcd,ftd->ncft", R, z)[:, m.reference_id]


def posterior(m, x):
    z = x / np.linalg.norm(x, axis=0)
    B = m.covariance
    d = np.einsum("cft,nfcd,dft->nft", z.conj(), np.linalg.inv(B), z).real
    lg = np.log(m.mixing)[..., None] - np.linalg.slogdet(B)[1][..., None] - x.shape[0] * np.log(d)
    lg = lg - lg.max(axis=0)
    g = np.exp(lg)
    return g / g.sum(axis=0)


def run_event(args):
    name, var = args
    e = entry(name)
    key = f"run/{name}/" + "/".join(f"{k}={v}" for k, v in sorted(var.items()) if v is not None)
    ev = dict(ev="run", start=1, key=key)
    n = var["n"]
    x = data_for(e, 60 + var["v"], n_ch=n, n_bins=4, n_frames=30)
    if "PDS" in name or "HVA" in name:
        x = 0.7 * x / np.max(np.linalg.norm(x.transpose(1, 0, 2), ord=2, axis=(-2, -1)))
    kw = {}
    if var.get("scale") is not None:
        kw["scale_restoration"] = var["scale"]
    if var.get("pa") is not None:
        kw["permutation_alignment"] = var["pa"]
    if e.kind == "tf":
        kw["reference_id"] = var["ref"]
    if has_loss(e):
        kw["record_loss"] = bool(var["v"] % 2)
    starts = []

    def start(m):
        if not starts:
            k = kind_of(m)
            if k in ("filter", "whitened"):
                src = m.whitened_input if k == "whitened" else x
                W = np.asarray(m.demix_filter)
                WW = W if W.ndim == 3 else W[np.newaxis]
                starts.append(rel(bins_first(np.array(m.output)), WW @ bins_first(src)))
            elif k == "signal":
                starts.append(linear(np.array(m.output), x)[0])
            else:
                starts.append(0.0)

    try:
        m = e.build(var["v"], callbacks=[start], **kw)
        ck = call_kwargs(e, x)
        out = m(x.copy(), n_iter=var["it"], **ck)
        if var.get("again") and kind_of(m) != "signal":
            out = m(x.copy(), n_iter=1, initial_call=False)
        out = np.array(out)
        ns = e.kwargs.get("n_sources") or n
        ev["kind"] = kind_of(m)
        ev["want"] = [ns] + list(x.shape[1:])
        ev["shape"] = list(out.shape)
        ev["stored"] = int(np.array_equal(out, m.output))
        ev["finite"] = int(np.all(np.isfinite(out)))
        k = ev["kind"]
        if k in ("filter", "whitened"):
            src = m.whitened_input if k == "whitened" else x
            W = np.asarray(m.demix_filter)
            WW = W if W.ndim == 3 else W[np.newaxis]
            ev["wx"] = q(rel(bins_first(out), WW @ bins_first(src)))
            ev["sep"] = q(rel(np.array(m.separate(x.copy(), demix_filter=W.copy())), out))
        ev["init"] = q(starts[0])
        if k in ("filter", "whitened", "signal"):
            r, c = linear(out, x)
            ev["lin"] = q(r)
            ev["inv"] = int(min(c, 1) * 1e9)
        if k == "wiener":
            ev["wiener"] = q(rel(out, wiener(m, x)))
            ev["sum"] = q(rel(out.sum(axis=0), x[m.reference_id]))
        if k == "mask":
            g = np.asarray(m.posterior)
            ev["mask"] = q(rel(out, g * x[m.reference_id]))
            ev["masksum"] = q(np.max(np.abs(g.sum(axis=0) - 1)) + max(0, -g.min()))
            ev["posterior"] = q(rel(g, posterior(m, x)))
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        ev.update(ev="exc", what=repr(ex)[:200])
    return ev


def exact_event(args):
    name, c = args
    e = catalogue()[name]
    key = f"exact/{name}/case{c['id']}/n{c['n']}"
    W, X = cint(c["W"]), cint(c["X"])
    ev = dict(ev="exact", start=1, key=key, W=c["W"], X=c["X"], sep=1)
    if e.kind == "real":
        W, X = W.real[0], X.real[0]
        ev["W"] = [[[[a[0], 0] for a in r] for r in c["W"][0]]]
        ev["X"] = [[[[a[0], 0] for a in r] for r in c["X"][0]]]
    try:
        kw = {} if e.kind == "real" else {"scale_restoration": False}
        if "FDICA" in name:
            kw["permutation_alignment"] = False
        if has_loss(e):
            kw["record_loss"] = False
        m = e.build(c["id"], **kw)
        Xc = X if e.kind == "real" else X.transpose(1, 0, 2)
        ck = dict(call_kwargs(e, Xc), demix_filter=W.copy())
        if ev["W"] and kind_whitened(name):
            m(Xc + 0.0, n_iter=0, demix_filter=np.eye(len(Xc)) if e.kind == "real" else np.tile(np.eye(len(Xc), dtype=complex), (len(X), 1, 1)))
            out = m.separate(Xc, demix_filter=W, use_whitening=False)
        else:
            out = m(Xc + 0.0, n_iter=0, initial_call=bool(c["id"] % 2), **ck)
            ev["sep"] = int(np.array_equal(np.array(m.separate(Xc, demix_filter=W)), np.array(out)))
        o, r = toint(bins_first(out) + 0j)
        ev["out"] = o or []
        ev["resid"] = q(r)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        ev.update(ev="exc", what=repr(ex)[:200])
        ev.pop("W"), ev.pop("X")
    return ev


def kind_whitened(name):
    return name.split("/")[0] in ("FastIVA", "FasterIVA", "FastICA")


SC = [True, False, "projection_back", "minimal_distortion_principle", "PB", "MDP"]


def plan(ctx):
    jobs = []
    for i, (name, e) in enumerate(list(catalogue().items()) + list(extra_entries().items())):
        cls = e.cls.__name__
        fixed = e.kwargs.get("n_sources")
        reps = 4 if ctx.quick else 16
        for k in range(reps):
            n = [2, 3, 2, 4][(i + k) % 4]
            if "IPSDTA" in name:
                n = 2
            if fixed:
                n = [2, 3][k % 2]
            if "FastGaussMNMF" in name and fixed and fixed < n:
                n = 2
            var = dict(v=(i + 3 * k) % 11, n=n, it=1 + (i + k) % 3, ref=[0, n - 1, -1, 1][(i // 2 + k) % 4],
                       scale=None, pa=None, again=None)
            if "IPSDTA" in name:
                var["it"] = 1
            if "MNMF" in cls or cls == "CACGMM" or e.kind == "real":
                pass
            else:
                var["scale"] = SC[(i + k) % 6]
                if var["it"] < 2:
                    var["it"] = 2
            if "FDICA" in cls:
                var["pa"] = [True, False, "spectrogram_correlation"][(i + k) % 3]
            if "AuxGauss" in cls:
                var["it"] = 2
            if k == 3 and "HVA" not in name:
                var["again"] = 1
            jobs.append((name, var))
    return jobs


def run(ctx):
    ctx.model("OutputMC", "Output" if ctx.quick else "OutputBig", workers=2)
    cases = ctx.generate("ScaleGen", "OutputGen" if ctx.quick else "ScaleGenBig", extra=("-seed", str(ctx.seed + 40)))
    filt = [n for n, e in catalogue().items() if "MNMF" not in n and not n.startswith("CACGMM")]
    ej = []
    for i, name in enumerate(filt):
        for k in range(3 if ctx.quick else 12):
            c = cases[(5 * i + k) % len(cases)]
            if "IPSDTA" in name and c["nb"] < 2:
                c = next(d for d in cases[(5 * i + k) % 30:] if d["nb"] >= 2)
            ej.append((name, c))
    events = pmap(exact_event, ej)
    runs = pmap(run_event, plan(ctx))
    ctx.sample({"exact": events[0]})
    ctx.sample({"run": runs[0]})
    ctx.extra["runs_by_kind"] = {k: sum(1 for r in runs if r.get("kind") == k)
                                 for k in ("filter", "whitened", "signal", "wiener", "mask")}
    ctx.validate("OutputTrace", events + runs, chunk=400)
    ctx.assumptions += ["Wiener estimate and posterior recomputed with numpy to 1e-6, filter application to 1e-8 and exactly on integers"]

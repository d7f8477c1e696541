"""C06: scale restoration, exactly on Gaussian integers and in every method."""

import numpy as np

from iterlib import call_kwargs, catalogue, data_for, has_loss, own_fault
from objective import family
from rt import pmap, q, rel

from ssspy.algorithm import minimal_distortion_principle, projection_back


def cint(a):
    a = np.array(a)
    return a[..., 0] + 1j * a[..., 1]


def toint(z):
    """Nearest Gaussian integers as nested lists, and the rounding residual."""
    z = np.asarray(z)
    if not np.all(np.isfinite(z)):
        return None, float("inf")
    r, i = np.rint(z.real), np.rint(z.imag)
    res = float(np.max(np.abs(z - (r + 1j * i)), initial=0) / max(1.0, float(np.max(np.abs(z), initial=0))))
    if np.max(np.abs(z), initial=0) > 1e9:
        return None, float("inf")
    return np.stack([r, i], -1).astype(int).tolist(), res


def diag(rng, shape, wide):
    m = np.exp(rng.uniform(-wide, wide, size=shape))
    return m * np.exp(2j * np.pi * rng.random(shape))


def kw_ref(ref, default_ok):
    if ref == -2:
        return {"reference_id": None}
    if ref == 0 and default_ok:
        return {}
    return {"reference_id": ref}


def exact_events(c):
    rng = np.random.default_rng([c["id"], 5])
    W, X, U = cint(c["W"]), cint(c["X"]), cint(c["U"])  # (nb, n, .)
    nb, n, t = c["nb"], c["n"], c["t"]
    base = dict(start=1, n=n, nb=nb, t=t, ref=c["ref"], W=c["W"], X=c["X"], U=c["U"])
    evs = []
    kw = kw_ref(c["ref"], c["id"] % 2 == 0)

    def put(kind, key, fn):
        e = dict(base, ev=kind, key=f"{kind}/case{c['id']}/n{n}/ref{c['ref']}/{key}")
        try:
            z = fn()
            z = z if c["ref"] == -2 else z[np.newaxis]
            out, res = toint(z)
            if out is None:
                out = []
            e.update(out=out, resid=q(res))
        except Exception as ex:  # noqa: BLE001
            if own_fault(ex):
                raise
            e.update(ev="exc", what=repr(ex)[:200])
        evs.append(e)

    for name, D in (("plain", np.ones((nb, n))), ("scaled", diag(rng, (nb, n), 2)), ("wild", diag(rng, (nb, n), 9))):
        V = D[..., None] * W
        put("filter", name, lambda: projection_back(V, **kw))
        if name == "plain":
            # other batch shapes: none, and two leading axes
            put("filter", "batch2", lambda: projection_back(V[:, None], **kw)[..., :, 0, :, :])
            if nb == 1:
                put("filter", "batch0", lambda: projection_back(V[0], **kw)[..., None, :, :])
        if name == "wild":
            V = (diag(rng, (nb, n), 3))[..., None] * W
        Y = (V @ X).transpose(1, 0, 2)
        Xr = X.transpose(1, 0, 2)
        put("signal", name, lambda: projection_back(Y, reference=Xr, **kw).swapaxes(-3, -2))
        Z = (D[..., None] * U).transpose(1, 0, 2)
        put("mdp", name, lambda: t * minimal_distortion_principle(Z, reference=Xr, **kw).swapaxes(-3, -2))
    for e in evs:
        drop = {"filter": ("X", "U"), "signal": ("U",), "mdp": ("W",), "exc": ("W", "X", "U")}[e["ev"]]
        for k in drop:
            e.pop(k)
    return evs


# ------------------------------------------------------------------ methods
SCALES = [True, "projection_back", "projection-back", "PB", "minimal_distortion_principle",
          "minimal-distortion-principle", "MDP", False, "projectionback", "mdp"]


def has_scale(e):
    n = e.cls.__name__
    return e.kind == "tf" and "MNMF" not in n and n != "CACGMM"


def pb_oracle(y, x, ref):
    """factor per source and bin such that the signals sum to the reference channel"""
    out = np.empty_like(y)
    for f in range(y.shape[1]):
        a = np.linalg.lstsq(y[:, f].T, x[ref, f], rcond=None)[0]
        out[:, f] = a[:, None] * y[:, f]
    return out


def mdp_oracle(y, x, ref):
    a = np.sum(y.conj() * x[ref], axis=-1, keepdims=True) / np.sum(np.abs(y) ** 2, axis=-1, keepdims=True)
    return a * y


def factor_resid(z, y):
    c = np.sum(y.conj() * z, axis=-1, keepdims=True) / np.sum(np.abs(y) ** 2, axis=-1, keepdims=True)
    return rel(z, c * y)


def extra_kw(e, var):
    return {"permutation_alignment": var["pa"]} if "FDICA" in e.cls.__name__ else {}


def make(e, var, scale, ref, log=None):
    kw = dict(extra_kw(e, var))
    if has_loss(e):
        kw["record_loss"] = True
    if log is not None:
        def cb(m):
            log.append(np.array(m.output if m.demix_filter is None else m.demix_filter))
        kw["callbacks"] = cb
    return e.build(var["v"], scale_restoration=scale, reference_id=ref, **kw)


def method_event(args):
    name, var = args
    e = catalogue()[name]
    x = data_for(e, 40 + var["v"], n_ch=var["n"], n_bins=4, n_frames=30)
    ref, scale = var["ref"], var["scale"]
    key = f"method/{name}/n{var['n']}/scale={scale}/ref{ref}/pa={var['pa']}"
    ev = dict(ev="method", start=1, key=key, scale=str(scale), raised="", pb=0, sum=0, again=0, mdp=0, factor=0, loss=0, none=0)
    xs = 0.7 * x / np.max(np.linalg.norm(x.transpose(1, 0, 2), ord=2, axis=(-2, -1))) if ("PDS" in name or "HVA" in name) else x
    ck = dict(call_kwargs(e, xs))
    it = var["it"]
    if var.get("init"):
        rng = np.random.default_rng(7 + var["v"])
        V = np.eye(var["n"]) + 0.4 * (rng.standard_normal((x.shape[1], var["n"], var["n"])) + 1j * rng.standard_normal((x.shape[1], var["n"], var["n"])))
        ck["demix_filter"] = V
        key += f"/init/it{it}"
        ev["key"] = key
    try:
        if scale is False:
            log = []
            m = make(e, var, False, ref, log)
            m(xs.copy(), n_iter=it, **ck)
            final = m.output if m.demix_filter is None else m.demix_filter
            if not ("FDICA" in name and var["pa"]):
                ev["none"] = q(rel(final, log[-1]))
            return ev
        m0 = make(e, var, False, ref)
        y = np.array(m0(xs.copy(), n_iter=it, **ck))
        try:
            m = make(e, var, scale, ref)
            z = np.array(m(xs.copy(), n_iter=it, **ck))
        except Exception as ex:  # noqa: BLE001
            if own_fault(ex):
                raise
            ev["raised"] = type(ex).__name__
            return ev
        ev["pb"] = q(rel(z, pb_oracle(y, xs, ref)))
        ev["sum"] = q(rel(z.sum(axis=0), xs[ref]))
        ev["mdp"] = q(rel(z, mdp_oracle(y, xs, ref)))
        ev["factor"] = q(factor_resid(z, y))
        m.restore_scale()
        ev["again"] = q(rel(m.output, z))
        if has_loss(e):
            ev["loss"] = q(rel(np.array(m.loss), np.array(m0.loss)))
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        ev.update(ev="exc", what=repr(ex)[:200])
    return ev


def plan(ctx):
    jobs = []
    names = [n for n, e in catalogue().items() if has_scale(e)]
    for i, name in enumerate(names):
        ip = "IPSDTA" in name
        for k, scale in enumerate(SCALES):
            n = 3 if (i + k) % 3 == 0 and not ip else 2
            refs = [0, 1, n - 1, -1]
            take = refs if not ctx.quick else [refs[(i + k) % 4]]
            if scale in ("projectionback", "mdp", "projection-back", "minimal-distortion-principle") and ctx.quick:
                if (i + k) % 4:
                    continue
            for r in take:
                jobs.append((name, dict(v=(i + k) % 7, n=n, ref=r, scale=scale, it=1 if ip else 2 + (i + k) % 2,
                                        pa=[True, False, "spectrogram_correlation", False][(i + k) % 4])))
        if family(catalogue()[name]) != "fixed":
            # from a filter of the caller's, also without any iteration
            for k, scale in enumerate((True, "minimal_distortion_principle")):
                for it in ((0, 1)[(i + k + ctx.seed) % 2],) if ctx.quick else (0, 1):
                    jobs.append((name, dict(v=(i + ctx.seed) % 7, n=2 + (i + ctx.seed) % 2 * (not ip), ref=(i + k + ctx.seed) % 2, scale=scale, it=it, pa=False, init=1)))
    return jobs


def run(ctx):
    ctx.model("ScaleMC", "Scale", workers=2)
    if not ctx.quick:
        ctx.model("ScaleMC", "Scale3", workers=2)
    cases = ctx.generate("ScaleGen", "ScaleGen" if ctx.quick else "ScaleGenBig", extra=("-seed", str(ctx.seed)))
    ctx.sample({"case": cases[0]})
    events = [e for evs in pmap(exact_events, cases) for e in evs]
    jobs = plan(ctx)
    mev = pmap(method_event, jobs)
    ctx.sample({"method": mev[0]})
    ctx.extra["method_runs"] = len(mev)
    ctx.extra["exact_cases"] = len(events)
    ctx.validate("ScaleTrace", events + mev, chunk=400)
    ctx.assumptions += ["methods compared with an independent least-squares oracle to 1e-6",
                        "unit-determinant Gaussian-integer filters, unimodular signals for the exact part"]

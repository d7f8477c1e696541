"""C14: linear algebra routines against their defining equations (cases from LinAlgGen.tla)."""
import functools
import random
import warnings

import numpy as np

import ssspy.linalg as la
from c13 import as_ints, cint, f, layouts
from rt import pmap
from ssspy.special.flooring import max_flooring


def arr(m, cplx):
    a = cint(m)
    return a if cplx else a.real


def leads(rng, nb):
    opts = [(nb,), (1, nb), (nb, 1)]
    if nb == 1:
        opts.append(())
    if nb == 4:
        opts.append((2, 2))
    return rng.choice(opts)


def herm(a):
    return a.swapaxes(-2, -1).conj()


def big(a):
    return max(float(np.max(np.abs(a), initial=0)), 1e-300)


class Call:
    """one batched call; every item also alone"""

    def __init__(self, rng, fn, arrays, nb, lead=None, ints=False):
        self.lead = leads(rng, nb) if lead is None else lead
        shaped = [layouts(rng, a.reshape(self.lead + a.shape[1:])) for a in arrays]
        kept = [a.copy() for a in shaped]
        self.out = fn(*shaped)
        self.touched = 0 if all(np.array_equal(a, b) for a, b in zip(shaped, kept)) else 1
        self.single = []
        for b in range(nb):
            bare = lead is None and rng.random() < 0.6
            self.single.append(fn(*[a[b].copy() if bare else a[b : b + 1].copy() for a in arrays]))

    def base(self, ev, key, shape, want, flat, singles, cplx_out, cplx_want, atol=20000):
        alone = max((np.max(np.abs(np.asarray(s).reshape(flat[b].shape) - flat[b]), initial=0) for b, s in enumerate(singles)),
                    default=0.0)
        return dict(ev=ev, start=1, key=key, alone=f(alone / big(flat)), atol=atol, shape=list(shape), want=list(want),
                    touched=self.touched, dtype=0 if bool(cplx_out) == bool(cplx_want) else 1)


def mats_case(case, key, ev, rng, fn, arrays, mult, extra, cplx, tail=None, size=None, lead=None):
    nb = arrays[0].shape[0]
    c = Call(rng, fn, arrays, nb, lead=lead)
    out = np.asarray(c.out)
    tail = arrays[-1].shape[1:] if tail is None else tail
    want = c.lead + tuple(tail)
    if out.shape != want:
        return dict(ev="exc", start=1, key=key, error=f"shape {out.shape} for {want}")
    flat = out.reshape((nb,) + tuple(tail))
    e = c.base(ev, key, out.shape, want, flat, c.single, np.iscomplexobj(out), cplx)
    m = np.asarray(mult).reshape((-1,) + (1,) * len(tail)) if np.ndim(mult) else mult
    e["got"], off = as_ints(flat.astype(complex) * m, big(flat * m) if size is None else size)
    e["off"] = f(off)
    e.update(extra)
    return e


# ------------------------------------------------------------------ exact cases
def run_inv2(case, rng):
    A = arr(case["A"], case["cplx"])
    det = cint(case["det"])
    out = []
    for s in (1.0, 2.0 ** rng.choice([-20, 15]), 0):
        X = A * s if s else (A if case["cplx"] else A.astype(int))
        out.append(mats_case(case, f"inv2/{case['id']}/{s:g}", "inv2", rng, la.inv2, [X], det * (s or 1),
                             dict(A=case["A"]), case["cplx"]))
    return out


def run_solve(case, rng):
    A, B = arr(case["A"], case["cplx"]), arr(case["B"], case["cplx"])
    det = cint(case["det"])
    s, t = 2.0 ** rng.choice([0, -9, 12]), 2.0 ** rng.choice([0, 7, -11])
    Bs = case["B"]
    if case["vec"]:
        B = B[..., 0]
        Bs = [[[r[0]] for r in b] for b in Bs]
    e = mats_case(case, f"solve/{case['id']}", "solve", rng, la.solve, [A * s, B * t], det * s / t, dict(A=case["A"], B=Bs),
                  case["cplx"])
    if case["vec"] and "got" in e:
        e["got"] = [[[x] for x in b] for b in e["got"]]
    return [e]


def run_form(case, rng):
    A, x = arr(case["A"], case["ac"]), arr(case["x"], case["xc"])
    s = 2.0 ** rng.choice([0, -9, 12])
    return [mats_case(case, f"form/{case['id']}", "form", rng, lambda u, M: la.quadratic(u, M), [x * s, A], 1 / s**2,
                      dict(A=case["A"], x=case["x"]), case["ac"] or case["xc"], tail=())]


def run_eig(case, rng):
    evs = []
    A = arr(case["A"], case["cplx"])
    n = A.shape[-1]
    nb = A.shape[0]
    den2 = case["den"] ** 2
    if case["type"] == 0:
        A = A / den2
    else:
        B = arr(case["B"], case["cplx"])
    fns = [("eigh", la.eigh)] + ([("eigh2", la.eigh2)] if n == 2 else [])
    for name, fn in fns:
        s = 2.0 ** rng.choice([0, 0, -10, 9])
        if case["type"] == 0:
            call, arrays = fn, [A * s]
        else:
            call = functools.partial(fn, type=case["type"]) if case["type"] != 1 or rng.random() < 0.5 else fn
            arrays = [A * s, B]
        key = f"{name}/{case['id']}/t{case['type']}"
        c = Call(rng, call, arrays, nb)
        val, vec = (np.asarray(o) for o in c.out)
        ok = val.shape == c.lead + (n,) and vec.shape == c.lead + (n, n)
        if not ok:
            evs.append(dict(ev="exc", start=1, key=key, error=f"shapes {val.shape} {vec.shape}"))
            continue
        val, vec = val.reshape(nb, n), vec.reshape(nb, n, n)
        val = val / s
        proj, pref = [], []
        for b in range(nb):
            d = np.asarray(case["d"][b])
            sd = np.sort(d)
            ps = [vec[b][:, sd == x] @ vec[b][:, sd == x].conj().T * den2 for x in np.unique(d)]
            proj.append(ps)
        ints, off = zip(*[as_ints(np.asarray(ps).astype(complex), big(np.asarray(ps))) for ps in proj])
        vi, voff = as_ints(val, big(np.asarray(case["d"])))
        alone = max(np.max(np.abs(np.asarray(sg[0]).reshape(n) / s - val[b])) for b, sg in enumerate(c.single))
        evs.append(dict(ev="eig", start=1, key=key, d=case["d"], Z=case["Z"], val=vi, valoff=f(voff),
                        ascend=int(np.all(np.diff(val, axis=-1) >= 0)), got=list(ints), off=f(max(off)),
                        alone=f(alone / big(val)), atol=20000, shape=[], want=[], touched=c.touched,
                        dtype=0 if np.iscomplexobj(vec) == bool(case["cplx"]) and not np.iscomplexobj(val) else 1))
    return evs


def run_root(case, rng):
    den2 = case["den"] ** 2
    s = 4.0 ** rng.choice([0, 0, -6, 5])
    X = arr(case["A"], case["cplx"]) / den2 * s
    e = mats_case(case, f"sqrtmh/{case['id']}", "root", rng, la.sqrtmh, [X], den2 / np.sqrt(s),
                  dict(m=case["m"], d=case["d"]), case["cplx"])
    if e["ev"] == "root" and any(0 in d for d in case["d"]):
        e["atol"] = 2000000
    return [e]


def run_invroot(case, rng):
    den2 = case["den"] ** 2
    s = 4.0 ** rng.choice([0, 0, -6, 5])
    X = arr(case["A"], case["cplx"]) / den2 * s
    fn = la.invsqrtmh
    if case["floor"]:
        fn = functools.partial(fn, flooring_fn=functools.partial(max_flooring, eps=case["floor"] * np.sqrt(s)))
    elif rng.random() < 0.3:
        fn = functools.partial(fn, flooring_fn=None)
    return [mats_case(case, f"invsqrtmh/{case['id']}", "invroot", rng, fn, [X], 12 * den2 * np.sqrt(s),
                      dict(m=case["m"], d=case["d"], floor=case["floor"]), case["cplx"])]


def run_mean(case, rng):
    evs = []
    A, B = arr(case["A"], case["cplx"]), arr(case["B"], case["cplx"])
    s = 4.0 ** rng.choice([0, 0, -5, 4])
    m = {1: 1 / np.sqrt(s), 2: np.sqrt(s), 3: 1 / np.sqrt(s)}[case["type"]]
    fn = functools.partial(la.gmeanmh, type=case["type"]) if case["type"] != 1 or rng.random() < 0.5 else la.gmeanmh
    extra = dict(Z=case["Z"], d=case["d"])
    evs.append(mats_case(case, f"gmeanmh/{case['id']}/t{case['type']}", "mean", rng, fn, [A * s, B], m, extra, case["cplx"]))
    if case["type"] == 1:  # symmetric in its operands
        evs.append(mats_case(case, f"gmeanmh/{case['id']}/swap", "mean", rng, fn, [B, A * s], m, extra, case["cplx"]))
    return evs


def run_cbrt(case, rng):
    w, x = arr(case["w"], case["cplx"]), arr(case["x"], case["cplx"])
    s = 8.0 ** rng.choice([0, 0, -7, 8])
    shape = rng.choice([(6,), (2, 3), (3, 1, 2)])
    X = layouts(rng, (x * s).reshape(shape))
    keep = X.copy()
    y = np.asarray(la.cbrt(X))
    e = dict(ev="cbrt", start=1, key=f"cbrt/{case['id']}", x=[list(map(int, v)) for v in case["x"]], w=case["w"],
             cplx=case["cplx"], shape=list(y.shape), want=list(shape), touched=int(not np.array_equal(X, keep)),
             dtype=int(np.iscomplexobj(y) != bool(case["cplx"])), atol=20000)
    if y.shape != shape:
        return [dict(ev="exc", start=1, key=e["key"], error="shape")]
    yf = y.ravel()
    e["alone"] = f(max(abs(np.asarray(la.cbrt(X.ravel()[k : k + 1]))[0] - yf[k]) for k in range(6)) / big(yf))
    e["got"], off = as_ints((yf.astype(complex) ** 3) / s, big(x))
    e["off"] = f(off)
    e["root"], _ = as_ints(yf.real / np.cbrt(s))
    return [e]


def run_cubic(case, rng):
    evs = []
    nb = len(case["r"])
    c = arr(case["c"], case["cplx"])  # (nb, 4)
    lead = leads(rng, nb)
    k = rng.choice([0, 0, 3, -4])  # roots scaled by 2^k
    for with_d in ([True] if case["lead"] else [True, False]):
        co = [layouts(rng, (c[:, i] * 2.0 ** (k * i)).reshape(lead)) for i in range(4)]
        if not with_d:
            co = co[1:]
        fn = lambda *a, **kw: np.asarray(la.solve_cubic(*a, **kw))
        keep = [a.copy() for a in co]
        X = fn(*co)
        one = fn(*co, all=False)
        key = f"cubic/{case['id']}/{'D' if with_d else 'monic'}"
        if X.shape != (3,) + lead or one.shape != lead:
            evs.append(dict(ev="exc", start=1, key=key, error=f"shape {X.shape} {one.shape}"))
            continue
        roots = X.reshape(3, nb).T / 2.0**k
        ints, off = zip(*[as_ints(roots[b].astype(complex), big(roots[b])) for b in range(nb)])
        alone = max(np.max(np.abs(np.asarray(fn(*[a.reshape(nb)[b : b + 1] for a in co]))[:, 0] / 2.0**k - roots[b])) for b in range(nb))
        near = max(float(np.min(np.abs(X.reshape(3, nb)[:, b] - one.reshape(nb)[b]))) for b in range(nb))
        evs.append(dict(ev="cubic", start=1, key=key, r=case["r"], got=list(ints), off=[f(o) for o in off],
                        one=int(near > 1e-12 * big(X)), alone=f(alone / big(roots)), atol=20000, shape=[], want=[],
                        touched=int(not all(np.array_equal(a, b) for a, b in zip(co, keep))), dtype=0))
    return evs


def lqpqm(*args, **kw):
    """the minimizer; an announced lack of convergence is followed up with more iterations"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        q = la.lqpqm2(*args, **kw)
    told = any(issubclass(x.category, UserWarning) and "converge" in str(x.message) for x in w)
    return (la.lqpqm2(*args, **{**kw, "max_iter": 200}) if told else q), told


LQ_OPTIONS = [dict(), dict(), dict(max_iter=50), dict(flooring_fn=None, max_iter=50), dict(singular_fn=None),
              dict(singular_fn=lambda x: x < 1e-8), dict(flooring_fn=functools.partial(max_flooring, eps=1e-12))]


def run_lq(case, rng):
    evs = []
    it = case["items"]
    nb, n = len(it), case["n"]
    den = case["den"]
    lam = np.array([x["lam"] for x in it], dtype=float)
    H = arr([x["H"] for x in it], case["cplx"]) / den**2
    v = arr([x["v"] for x in it], case["cplx"]) / (den * lam[:, None])
    z = np.array([x["z"] for x in it], dtype=float)
    for o, kw in enumerate(LQ_OPTIONS):
        if o and rng.random() < 0.6:
            continue
        if kw.get("flooring_fn", 0) is None and any(x["phi"].count(max(x["phi"])) > 1 for x in it):
            continue  # a tied dominant eigenvalue is what the floor guards against
        s = rng.choice([1.0, 1.0, 0.125, 16.0])  # the minimizer does not depend on a common scale
        told = []

        def fn(a, b, c):
            q, t = lqpqm(a, b, c, **kw)
            told.append(t)
            return q

        e = mats_case(case, f"lqpqm/{case['id']}/o{o}", "lq", rng, fn, [H * s, v, z * s], den * lam,
                      dict(items=it), case["cplx"], tail=(n,), lead=(nb,))
        evs.append(e)
        if kw.get("flooring_fn", 0) is not None and all(sorted(x["phi"])[-2:].count(max(x["phi"])) == 1 for x in it):
            evs.append(dict(ev="resid", start=1, key=e["key"], what="lqpqm-converges", r=int(any(told)), grade="exact"))
    return evs


def run_lqzero(case, rng):
    evs = []
    nb, n, den = len(case["m"]), case["n"], case["den"]
    H = cint(case["H"]) / den**2
    S = np.array(case["s"], dtype=float)
    T = np.array(case["t"], dtype=float)
    z = S**2 - T**2
    if case["above"]:
        z = S**2 + case["above"]
    v = np.zeros((nb, n), dtype=complex)
    for o, kw in enumerate(LQ_OPTIONS):
        if o and rng.random() < 0.6:
            continue
        sc = rng.choice([1.0, 0.125, 16.0])

        def fn(a, b, c):
            q = la.lqpqm2(a, b, c, **kw)
            return q[:, :, None] * q[:, None, :].conj()

        evs.append(mats_case(case, f"lqpqm0/{case['id']}/o{o}", "lqzero", rng, fn, [H * sc, v, z * sc], den**2 * S**2,
                             dict(m=case["m"], s=case["s"], t=case["t"], top=case["top"], above=case["above"]), 1,
                             tail=(n, n), lead=(nb,)))
    return evs


def run_lqhard(case, rng):
    """v orthogonal to the dominant eigenvector: |q|^2 and the argument of the log identify the minimizer"""
    it, den = case["items"], case["den"]
    lam = np.array([x["lam"] for x in it], dtype=float)
    H = cint([x["H"] for x in it]) / den**2
    v = cint([x["v"] for x in it]) / (den * lam[:, None])
    # exactly orthogonal inputs are only representable up to rounding
    z = np.array([x["z"] for x in it], dtype=float)
    q = la.lqpqm2(H, v, z)
    Hq = np.einsum("bij,bj->bi", H, q + v)
    arg = np.einsum("bi,bi->b", (q + v).conj(), Hq).real + z
    length = np.sum(np.abs(q) ** 2, axis=-1) * lam**2
    st = np.max(np.abs(arg[:, None] * q - Hq)) / np.max(np.abs(Hq)) if np.all(np.isfinite(q)) else np.inf
    li, lo = as_ints(length, big(length))
    ai, ao = as_ints(arg, big(arg))
    return [dict(ev="lqhard", start=1, key=f"lqpqm-hard/{case['id']}", items=it, length=li, arg=ai, off=f(max(lo, ao)),
                 stationary=f(st))]


# ------------------------------------------------------------------ arbitrary operands
def spd(nrng, lead, n, cplx, spread=1.0):
    G = nrng.standard_normal(lead + (n, n + 3))
    if cplx:
        G = G + 1j * nrng.standard_normal(lead + (n, n + 3))
    return G @ herm(G) / n * spread


def resid(key, what, r, grade="fine"):
    return dict(ev="resid", start=1, key=key, what=what, r=(0 if r == 0 else 1) if grade == "exact" else f(r), grade=grade)


def run_random(item):
    seed, reps = item
    rng = random.Random(f"c14/{seed}")
    nrng = np.random.default_rng(seed)
    evs = []
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for r in range(reps):
            try:
                evs += one_random(rng, nrng, f"rand/{seed}/{r}")
            except Exception as e:
                evs.append(dict(ev="exc", start=1, key=f"rand/{seed}/{r}", error=repr(e)))
    return evs


def one_random(rng, nrng, key):
    evs = []
    lead = tuple(rng.randint(1, 3) for _ in range(rng.randint(0, 3)))
    n = rng.choice([1, 2, 2, 3, 4, 6])
    cplx = rng.random() < 0.6
    s = rng.choice([1e-5, 1e-2, 1.0, 1e3, 1e6])
    t = rng.choice([1e-4, 1.0, 1e4])

    def gauss(shape, c=cplx):
        a = nrng.standard_normal(shape)
        return a + 1j * nrng.standard_normal(shape) if c else a

    def put(a):
        return layouts(rng, a)

    H = gauss(lead + (n, n)) * s
    H = (H + herm(H)) / 2
    P, Q = spd(nrng, lead, n, cplx, s), spd(nrng, lead, n, cplx, t)
    I = np.eye(n)
    key = f"{key}/{'c' if cplx else 'r'}{n}/{lead}"
    # inverse
    M = gauss(lead + (2, 2)) * s + 2 * s * np.eye(2)
    Mi = la.inv2(put(M))
    evs.append(resid(key, "inv2-equation", big(M @ Mi - np.eye(2)) / max(1, big(Mi) * big(M))))
    # solve
    a = gauss(lead + (n, n)) * s + 3 * s * I
    for shape in (lead + (n, rng.randint(1, 3)), lead + (n,)):
        b = gauss(shape) * t
        x = la.solve(put(a), put(b))
        res = (a @ x - b) if len(shape) == a.ndim else (a @ x[..., None])[..., 0] - b
        ok = x.shape == b.shape
        evs.append(resid(key, "solve-equation", big(res) / (big(a) * big(x)) if ok else 1.0))
    # quadratic form
    x = gauss(lead + (n,))
    want = np.einsum("...i,...ij,...j->...", x.conj(), H, x)
    got = la.quadratic(put(x), put(H))
    ok = np.shape(got) == lead
    evs.append(resid(key, "form-value", big(np.asarray(got) - want) / (big(H) * big(x) ** 2 * n) if ok else 1.0))
    # eigenproblems
    for fn, A, B in ((la.eigh, H, Q),) + (((la.eigh2, H, Q),) if n == 2 else ()):
        lam, Z = fn(put(A))
        evs.append(resid(key, "eigh-equation", big(A @ Z - lam[..., None, :] * Z) / big(A)))
        evs.append(resid(key, "eigh-normal", big(herm(Z) @ Z - I)))
        for typ in (1, 2, 3):
            lam, Z = fn(put(A), put(B), type=typ)
            if typ == 1:
                lhs, rhs = A @ Z, B @ Z * lam[..., None, :]
            elif typ == 2:
                lhs, rhs = A @ B @ Z, Z * lam[..., None, :]
            else:
                lhs, rhs = B @ A @ Z, Z * lam[..., None, :]
            cond = np.max(np.linalg.cond(B))
            size = (max(big(lhs), big(rhs)) + big(A) * big(Z) * (big(B) if typ != 1 else 1)) * cond
            evs.append(resid(key, f"eigh-type{typ}-equation", big(lhs - rhs) / size))
            evs.append(resid(key, f"eigh-type{typ}-ascending", float(np.any(np.diff(lam, axis=-1) < 0)), "exact"))
            nrm = herm(Z) @ (np.linalg.inv(B) if typ == 3 else B) @ Z - I
            evs.append(resid(key, f"eigh-type{typ}-normal", big(nrm) / cond))
    # roots and means
    R = la.sqrtmh(put(P))
    evs.append(resid(key, "sqrtmh-equation", big(R @ R - P) / big(P)))
    evs.append(resid(key, "sqrtmh-hermitian", big(R - herm(R)) / big(R)))
    evs.append(resid(key, "sqrtmh-positive", max(0.0, -float(np.min(np.linalg.eigvalsh((R + herm(R)) / 2)))) / big(R)))
    Ri = la.invsqrtmh(put(P))
    evs.append(resid(key, "invsqrtmh-equation", big(R @ Ri - I) / np.max(np.linalg.cond(P))))
    Lr = gauss(lead + (n, max(1, n - 1))) * np.sqrt(s)  # rank deficient
    D = Lr @ herm(Lr)
    R = la.sqrtmh(put(D))
    evs.append(resid(key, "sqrtmh-deficient-equation", big(R @ R - D) / big(D) if np.all(np.isfinite(R)) else 1.0))
    eps = 1e-3 * np.sqrt(big(D))
    Ri = la.invsqrtmh(put(D), flooring_fn=functools.partial(max_flooring, eps=eps))
    if np.all(np.isfinite(Ri)):
        lam = np.linalg.eigvalsh(Ri)
        want = np.sort(1 / np.maximum(np.sqrt(np.maximum(np.linalg.eigvalsh(D), 0)), eps), axis=-1)
        evs.append(resid(key, "invsqrtmh-floored", big(lam - want) / big(want), "half"))
    else:
        evs.append(resid(key, "invsqrtmh-floored", 1.0))
    cond = np.max(np.linalg.cond(P)) * np.max(np.linalg.cond(Q))
    for typ in (1, 2, 3):
        G = la.gmeanmh(put(P), put(Q), type=typ)
        A = np.linalg.inv(P) if typ == 2 else P
        B = np.linalg.inv(Q) if typ == 3 else Q
        E = G @ np.linalg.inv(A) @ G - B
        evs.append(resid(key, f"gmeanmh-type{typ}-equation", big(E) / big(B) / cond))
        evs.append(resid(key, f"gmeanmh-type{typ}-hermitian", big(G - herm(G)) / big(G) / cond))
        evs.append(resid(key, f"gmeanmh-type{typ}-positive", max(0.0, -float(np.min(np.linalg.eigvalsh((G + herm(G)) / 2)))) / big(G)))
    # cube roots and cubics
    x = gauss(lead + (n,)) * s
    y = la.cbrt(put(x))
    evs.append(resid(key, "cbrt-equation", float(np.max(np.abs(y**3 - x) / np.abs(x)))))
    kind = rng.choice(["any", "p0", "q0", "realroots", "any"])
    co = [gauss(lead) * (s if s < 1e4 else 1.0) ** i for i in (1, 2, 3)]
    if kind == "p0":
        co[1] = co[0] ** 2 / 3
    elif kind == "q0":
        co[2] = co[0] * co[1] / 3 - 2 * co[0] ** 3 / 27
    elif kind == "realroots":
        rr = np.sort(nrng.standard_normal((3,) + lead), axis=0) * 3
        co = [-(rr[0] + rr[1] + rr[2]), rr[0] * rr[1] + rr[0] * rr[2] + rr[1] * rr[2], -(rr[0] * rr[1] * rr[2])]
    co = [np.asarray(c) for c in co]
    X = np.asarray(la.solve_cubic(*[put(c) if c.ndim else c for c in co]))
    c = [np.asarray(v).astype(complex) for v in co]
    sc = np.max(np.abs(X), axis=0)
    vieta = [np.abs(X.sum(axis=0) + c[0]) / sc, np.abs(X[0] * X[1] + X[0] * X[2] + X[1] * X[2] - c[1]) / sc**2,
             np.abs(X[0] * X[1] * X[2] + c[2]) / sc**3]
    grade = "half" if kind in ("p0", "q0") else "fine"
    evs.append(resid(key + "/" + kind, "cubic-vieta", float(np.max(vieta)) if X.shape == (3,) + lead else 1.0, grade))
    try:
        la.solve_cubic(np.zeros(2), np.ones(2), np.ones(2), np.ones(2))
        evs.append(resid(key, "cubic-zero-lead-refused", 1.0, "exact"))
    except np.linalg.LinAlgError:
        pass
    # log-quadratically penalized quadratic minimization
    nb = rng.randint(1, 5)
    Hs = spd(nrng, (nb,), n, True)
    v = (nrng.standard_normal((nb, n)) + 1j * nrng.standard_normal((nb, n))) * rng.choice([1e-2, 0.3, 1.0, 10.0])
    z = np.abs(nrng.standard_normal(nb)) * rng.choice([0.0, 0.1, 1.0, 30.0])
    if rng.random() < 0.3:
        v[rng.randrange(nb)] = 0
    qv, _ = lqpqm(put(Hs), put(v), put(z))
    Hq = np.einsum("bij,bj->bi", Hs, qv + v)
    lam = np.einsum("bi,bi->b", (qv + v).conj(), Hq).real + z
    evs.append(resid(key, "lqpqm-stationary", float(np.max(np.abs(lam[:, None] * qv - Hq)) / big(lam[:, None] * (np.abs(qv) + np.abs(v)))), "half"))
    top = np.linalg.eigvalsh(Hs)[:, -1]
    evs.append(resid(key, "lqpqm-multiplier-above-spectrum", float(np.max(np.maximum(0, top - lam) / top)), "half"))
    return evs


def run_case(item):
    case, seed = item
    rng = random.Random(f"c14/{seed}/{case['id']}")
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return globals()["run_" + case["kind"]](case, rng)
        except Exception as e:
            return [dict(ev="exc", start=1, key=f"{case['kind']}/{case['id']}", error=repr(e))]


def run(ctx):
    ctx.model("LinAlgMC", "LinAlg")
    cases = ctx.generate("LinAlgGen", "LinAlgGen" if ctx.quick else "LinAlgGenBig", extra=("-seed", str(ctx.seed)))
    evs = [e for es in pmap(run_case, [(c, ctx.seed) for c in cases]) for e in es]
    reps = 25 if ctx.quick else 500
    evs += [e for es in pmap(run_random, [(ctx.seed * 1000 + i, reps) for i in range(8)]) for e in es]
    ctx.sample(cases[0])
    ctx.sample(cases[3])
    ctx.extra["cases"] = len(cases)
    ctx.assumptions += [
        "exact cases are posed by their answers (unimodular or rational eigenvectors, integer eigenvalues, n <= 4)",
        "arbitrary well-conditioned operands are judged by residuals of the defining equations, scaled by condition numbers",
    ]
    ctx.validate("LinAlgTrace", evs, chunk=1200, heap="3g")

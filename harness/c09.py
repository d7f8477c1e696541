"""C09: pair selectors (exact) and the updates they drive."""
import functools
import random
import warnings

import numpy as np

from iterlib import call_kwargs, catalogue, own_fault, plain_kwargs
from rt import pmap, q, rel

from ssspy.bss import _select_pair as legacy
from ssspy.bss import _update_spatial_model as usm
from ssspy.utils import select_pair as sp


def selector(r):
    if r["fn"] == "custom":
        return lambda n: [tuple(p) for p in r["pairs"]]
    if r["fn"] == "combination":
        return functools.partial(sp.combination_pair_selector, sort=bool(r["sort"]))
    kw = dict(step=r["step"], sort=bool(r["sort"]))
    if r["stop"] != -1:
        kw["stop"] = r["stop"]
    return functools.partial(sp.sequential_pair_selector, **kw)


def select_event(r, mod, name):
    """Every way of writing the request: keywords, positions, defaults left out."""
    evs = []
    n, sort = r["n"], bool(r["sort"])
    stop = None if r["stop"] == -1 else r["stop"]
    if r["fn"] == "combination":
        ways = [lambda f: f(n, sort=sort), lambda f: f(n_sources=n, sort=sort), lambda f: f(n, sort)]
        if not sort:
            ways.append(lambda f: f(n))
        f = mod.combination_pair_selector
    else:
        ways = [lambda f: f(n, stop=stop, step=r["step"], sort=sort), lambda f: f(n, stop, r["step"], sort)]
        if stop is None:
            ways.append(lambda f: f(n, step=r["step"], sort=sort))
            if r["step"] == 1 and not sort:
                ways.append(lambda f: f(n))
        if not sort:
            ways.append(lambda f: f(n_sources=n, stop=stop, step=r["step"]))
        f = mod.sequential_pair_selector
    for i, w in enumerate(ways):
        key = f"select/{name}/{r['fn']}/n{n}/stop{r['stop']}/step{r['step']}/sort{r['sort']}/way{i}"
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                it = iter(w(f))
                out = [[int(a), int(b)] for a, b in it]
        except Exception as ex:  # noqa: BLE001
            evs.append(dict(ev="exc", start=1, req=r, what=repr(ex)[:200], key=key))
            continue
        evs.append(dict(ev="select", start=1, req=r, out=out, key=key))
    return evs


NEG = {"neg": (1, 0), "negb": (0, 1), "negs": (1, 1)}         # indices counted from the end


class Watch:
    """A user-supplied selector that records who asks and what has changed between pairs."""

    def __init__(self, r, peek, style):
        self.r, self.peek, self.style = r, peek, style
        self.asked, self.pulled, self.partial = [], [], []

    def __call__(self, n_sources):
        self.asked.append(int(n_sources))
        pairs = [tuple(p) for p in selector(self.r)(n_sources)]
        if self.style in NEG:
            u, v = NEG[self.style]
            pairs_out = [(a - u * n_sources, b - v * n_sources) for a, b in pairs]
        else:
            pairs_out = pairs
        if self.style == "list":
            self.pulled += [list(p) for p in pairs]
            return pairs_out
        return self.gen(pairs, pairs_out)

    def gen(self, pairs, pairs_out):
        for p, po in zip(pairs, pairs_out):
            self.pulled.append(list(p))
            yield po
            self.partial.append(self.peek())


def rows(a, b, axis):
    a, b = np.moveaxis(a, axis, 0), np.moveaxis(b, axis, 0)
    return [i for i in range(len(a)) if rel(a[i], b[i]) > 1e-12]


def method_event(args):
    name, r, style, seed, iters = args
    e = catalogue()[name]
    n = r["n"]
    x = e.data(seed, n_ch=n, n_bins=3, n_frames=30)
    attr = "diagonalizer" if "MNMF" in name else ("output" if "ISS2" in name else "demix_filter")
    steer = attr == "output"
    axis = 0 if steer else 1
    key = f"visit/{name}/{r['fn']}/" + (str(r.get("pairs")) if r["fn"] == "custom" else f"{r['n']},{r['stop']},{r['step']},{r['sort']}") + f"/{style}/it{iters}/s{seed}"
    key = key.replace(" ", "")
    over = dict(plain_kwargs(e))
    if "normalization" in e.kwargs or "ILRMA" in name or "MNMF" in name:
        over["normalization"] = False
    ev = dict(ev="visit", start=1, req=r, key=key, iters=iters, steer=int(steer), compose=0, same=0, resid=0)
    box = {}
    try:
        w = Watch(r, lambda: rows(box["w0"], np.array(getattr(box["m"], attr)), axis), style)
        m = e.build(seed, pair_selector=w, record_loss=False, **over)
        box["m"] = m

        def grab(m):
            box.setdefault("w0", np.array(getattr(m, attr)))

        m.callbacks = [grab]
        out = m(x.copy(), n_iter=iters)
        w1 = np.array(getattr(m, attr))
        ev.update(asked=w.asked, pulled=w.pulled, partial=w.partial if not steer else [],
                  changed=rows(box["w0"], w1, axis) if not steer else [])
        touched = sorted({i for p in selector(r)(n) for i in p})
        if steer and touched:
            # signals outside the pairs move only along the signals of the pairs
            worst = 0.0
            for f in range(x.shape[1]):
                for i in range(n):
                    if i not in touched:
                        d = w1[i, f] - box["w0"][i, f]
                        B = box["w0"][touched, f].T
                        c = np.linalg.lstsq(B, d, rcond=None)[0]
                        worst = max(worst, np.max(np.abs(d - B @ c)) / np.max(np.abs(box["w0"][i, f])))
            ev["resid"] = q(worst)
        # a fixed list of the same pairs gives the same thing as the selector itself
        m2 = e.build(seed, pair_selector=selector(r), record_loss=False, **over)
        out2 = m2(x.copy(), n_iter=iters)
        ev["same"] = q(rel(out, out2))
        if r["fn"] == "sequential" and r["stop"] == -1 and r["step"] == 1 and not r["sort"]:
            m3 = e.build(seed, record_loss=False, **dict(over, pair_selector=None))
            ev["same"] = max(ev["same"], q(rel(out, m3(x.copy(), n_iter=iters))))
            m4 = e.build(seed, record_loss=False, **over)
            ev["same"] = max(ev["same"], q(rel(out, m4(x.copy(), n_iter=iters))))
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev="exc", start=1, req=r, what=repr(ex)[:200], key=key)]
    return [ev]


def function_event(args):
    """update_by_ip2 / update_by_iss2: a selection is the composition of its pairs, in order."""
    fn, r, style, seed = args
    n = r["n"]
    rng = np.random.default_rng(seed + 17)
    F, T = 3, 25
    key = f"function/{fn}/{style}/" + (str(r.get("pairs")) if r["fn"] == "custom" else f"{r['fn']},{r['n']},{r['stop']},{r['step']},{r['sort']}") + f"/s{seed}"
    key = key.replace(" ", "")
    x = rng.standard_normal((n, F, T)) + 1j * rng.standard_normal((n, F, T))
    pairs = [tuple(p) for p in selector(r)(n)]
    touched = sorted({i for p in pairs for i in p})
    steer = fn == "iss2"
    ev = dict(ev="visit", start=1, req=r, key=key, iters=1, steer=int(steer), compose=0, same=0, resid=0, partial=[], changed=[])
    try:
        if steer:
            wt = rng.random((n, F, T)) + 0.1
            w = Watch(r, list, style)
            got = usm.update_by_iss2(x.copy(), wt.copy(), pair_selector=w)
            y = x.copy()
            for p in pairs:
                y = usm.update_by_iss2(y, wt.copy(), pair_selector=lambda k, p=p: iter([p]))
            worst = 0.0
            for f in range(F):
                for i in range(n):
                    if i not in touched and touched:
                        d = got[i, f] - x[i, f]
                        B = x[touched, f].T
                        c = np.linalg.lstsq(B, d, rcond=None)[0]
                        worst = max(worst, np.max(np.abs(d - B @ c)) / np.max(np.abs(x[i, f])))
            ev.update(resid=q(worst), compose=q(rel(got, y)))
            ev["same"] = q(rel(usm.update_by_iss2(x.copy(), wt.copy(), pair_selector=selector(r)), got))
        else:
            W0 = np.tile(np.eye(n, dtype=complex), (F, 1, 1)) + 0.2 * (rng.standard_normal((F, n, n)) + 1j * rng.standard_normal((F, n, n)))
            B = rng.standard_normal((F, n, n, 2 * n)) + 1j * rng.standard_normal((F, n, n, 2 * n))
            U = B @ B.conj().transpose(0, 1, 3, 2) / (2 * n)
            w = Watch(r, list, style)
            got = usm.update_by_ip2(W0.copy(), U.copy(), pair_selector=w)
            y = W0.copy()
            for p in pairs:
                y = usm.update_by_ip2(y, U.copy(), pair_selector=lambda k, p=p: iter([p]))
            ev.update(compose=q(rel(got, y)), changed=rows(W0, got, 1))
            keep = W0.copy()
            g2 = usm.update_by_ip2(keep, U.copy(), pair_selector=selector(r), overwrite=False)
            ev["same"] = q(max(rel(g2, got), rel(keep, W0)))
        ev.update(asked=w.asked, pulled=w.pulled)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev="exc", start=1, req=r, what=repr(ex)[:200], key=key)]
    return [ev]


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("PairSelect", "PairSelect")
    cases = ctx.generate("PairGen", "PairGen")
    reqs = [c for c in cases if c["fn"] != "custom"]
    customs = [c for c in cases if c["fn"] == "custom" and c["pairs"]]
    evs = []
    for r in reqs:
        evs += select_event(r, sp, "utils")
        evs += select_event(r, legacy, "legacy")
    names = [n for n in sorted(catalogue()) if "IP2" in n.split("/") or "ISS2" in n.split("/")]
    small = [r for r in reqs if r["n"] in (2, 3, 4) and r["stop"] in (-1, 1, 3, 5)]
    default = [r for r in small if r["stop"] == -1 and r["step"] == 1 and r["sort"] == 0 and r["fn"] == "sequential"]
    rnd.shuffle(customs)
    rnd.shuffle(small)
    c4 = [c for c in customs if c["n"] == 4] + [c for c in customs if c["n"] == 3]
    jobs = []
    i = 0
    for name in names:
        styles = ["gen", "list"] + (list(NEG) if "ISS2" in name else [])
        for d in default:
            jobs.append((name, d, "gen", ctx.seed, 2 if d["n"] < 4 else 1))
        for k in range(8 if ctx.quick else 60):
            pool = c4 if k % 3 else customs if k % 2 else small
            jobs.append((name, pool[i % len(pool)], styles[i % len(styles)], ctx.seed + k, 1 + (i % 2)))
            i += 1
    for t in pmap(method_event, jobs):
        evs += t
    fj = []
    for fn in ("ip2", "iss2"):
        for k in range(60 if ctx.quick else 600):
            pool = customs if k % 2 else small
            fj.append((fn, pool[(i * 3) % len(pool)], ["gen", "list", *NEG][i % 5] if fn == "iss2" else ["gen", "list"][i % 2], ctx.seed + k))
            i += 1
    for t in pmap(function_event, fj):
        evs += t
    ctx.extra.update(selector_requests=len(reqs), custom_selections=len(customs), methods=len(names))
    ctx.sample(jobs[1][:3])
    ctx.sample(evs[0])
    ctx.validate("PairTrace", evs)
    ctx.assumptions += ["row changes are detected above 1e-12 relative; compositions compared to 1e-6"]

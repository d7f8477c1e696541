"""Replays histories on real objects and records what is observed through public API."""
import collections
import functools
import os
import traceback

import numpy as np

from catalog import entries
from rt import rel

STATE = ("demix_filter", "basis", "activation", "latent", "spatial", "diagonalizer", "dual",
         "auxiliary1", "auxiliary2", "dual1", "dual2", "mixing", "covariance")
TOL = 1e-8


@functools.lru_cache(None)
def catalogue():
    return {e.name: e for e in entries()}


def uses_output_state(e):
    sp = e.kwargs.get("spatial_algorithm", "")
    return str(sp).startswith("ISS") or sp == "IPA"


def snap(obj):
    out = {}
    for k in STATE:
        v = getattr(obj, k, None)
        if v is None:
            continue
        if isinstance(v, (tuple, list)):
            for i, a in enumerate(v):
                out[f"{k}{i}"] = np.array(a)
        else:
            out[k] = np.array(v)
    if getattr(obj, "demix_filter", None) is None and not hasattr(obj, "posterior") and hasattr(obj, "output") \
            and "spatial" not in out:
        out["output"] = np.array(obj.output)
    return out


def canon(d):
    """Output without the phase of each source and bin (left free by eigenvector updates)."""
    if "output" not in d:
        return d
    y = d["output"]
    ref = np.sum(y, axis=-1, keepdims=True)
    ph = ref / np.where(np.abs(ref) > 0, np.abs(ref), 1)
    return dict(d, output=y * np.conj(ph))


def same(a, b, tol=TOL):
    if a.keys() != b.keys():
        return False
    return all(rel(a[k], b[k]) <= tol for k in a)


def loss_same(a, b, tol=TOL):
    a, b = float(a), float(b)
    if a == b or (np.isnan(a) and np.isnan(b)):
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def plain_kwargs(e):
    """Constructor overrides under which parameters are left alone at the end of a call."""
    kw = {"scale_restoration": False}
    if "FDICA" in e.cls.__name__:
        kw["permutation_alignment"] = False
    n = e.cls.__name__
    if n == "CACGMM":
        kw = {"permutation_alignment": False}
    elif "MNMF" in n:
        kw = {}
    elif e.kind == "real":
        kw = {}
    return kw


def call_kwargs(e, x, k=0):
    """Extra kwargs of the first call (ADMM starts from a non-degenerate auxiliary)."""
    if "ADMM" in e.cls.__name__:
        C, F, _ = x.shape
        return {"auxiliary1": np.tile(np.eye(C, dtype=complex), (F, 1, 1))}
    return {}


def has_loss(e):
    n = e.cls.__name__
    return not (n in ("MaskingPDSBSS", "MaskingADMMBSS", "MaskingPDSHVA", "MaskingADMMHVA", "HVA"))


def data_for(e, seed, n_ch=2, n_bins=4, n_frames=24):
    if e.kind == "real":
        return e.data(seed, n_ch=n_ch, n_samples=80)
    return e.data(seed, n_ch=n_ch, n_bins=n_bins, n_frames=n_frames)


HERE = os.path.dirname(os.path.abspath(__file__))


def own_fault(ex):
    """True when the exception was raised by the harness itself, not by the library."""
    last = traceback.extract_tb(ex.__traceback__)[-1].filename
    return last.startswith(HERE) and not last.endswith("catalog.py")


class Orbit:
    """States and losses after 0..N updates, each from its own fresh object."""

    def __init__(self, e, x, seed, N, over=None, extra=None):
        self.e, self.x = e, x
        self.states, self.losses, self.outputs = [], [], []
        over = dict(plain_kwargs(e), **(over or {}))
        for k in range(N + 1):
            m = e.build(seed, record_loss=has_loss(e), **over)
            out = m(x.copy(), n_iter=k, **(extra or call_kwargs(e, x)))
            self.states.append(snap(m))
            self.outputs.append(np.array(out))
            self.losses.append(list(m.loss)[-1] if has_loss(e) else None)

    free_phase = False

    def match(self, s):
        if self.free_phase:
            return [k for k, t in enumerate(self.states) if same(canon(s), canon(t))]
        return [k for k, t in enumerate(self.states) if same(s, t)]

    def match_output(self, y, tol=1e-7):
        c = (lambda a: canon({"output": a})["output"]) if self.free_phase else (lambda a: a)
        return [k for k, t in enumerate(self.outputs) if rel(c(np.array(t)), c(np.array(y))) <= tol]

    def match_loss(self, v):
        return [k for k, t in enumerate(self.losses) if t is not None and loss_same(v, t)]


class Replayer:
    """Executes one program (list of {d,o,n,init,at}) on a set of objects."""

    def __init__(self, objs, orbits, inputs, cfg, key, quiet=True, first_kwargs=None, between=None):
        self.objs, self.orbits, self.inputs = objs, orbits, inputs
        self.cfg, self.key = cfg, key
        self.events = []
        self.pending = []
        self.depth = 0
        self.count = collections.defaultdict(int)
        self.called = set()
        self.first_kwargs = first_kwargs or {}
        self.outputs = {}
        self.before = between
        self.noloss = False
        self.emit(ev="new", start=1, quiet=1 if quiet else 0,
                  cfg=[cfg[o] for o in sorted(cfg)])

    def emit(self, **k):
        k["key"] = self.key
        if self.noloss:
            k.pop("lossat", None)
            k.pop("losses", None)
        self.events.append(k)

    def view(self, o):
        m = self.objs[o]
        return self.orbits[o].match(snap(m))

    def nloss(self, o):
        m = self.objs[o]
        return -1 if m.loss is None else len(m.loss)

    def lossat(self, o):
        m = self.objs[o]
        if not m.loss:
            return []
        return self.orbits[o].match_loss(m.loss[-1])

    def callback(self, o, j):
        def cb(method):
            if method is not self.objs[o]:
                self.emit(ev="exc", o=o, what="callback got another object")
            self.count[o] += 1
            self.emit(ev="cb", o=o, j=j, pos=self.view(o), nloss=self.nloss(o), lossat=self.lossat(o))
            while self.pending and self.pending[0]["d"] == self.depth and self.pending[0]["at"] == self.count[o]:
                self.call(self.pending.pop(0))
            self.emit(ev="endcb", o=o)

        return cb

    def call(self, h):
        o = h["o"]
        kw = {} if o in self.called else dict(self.first_kwargs.get(o, {}))
        ev = dict(ev="begin", o=o, n=h["n"], init=h["init"])
        self.called.add(o)
        if self.before:
            ev.update(self.before(o, self.objs[o]) or {})
        self.emit(**ev)
        self.depth += 1
        try:
            if self.inputs.get(o) is None:
                out = self.objs[o](n_iter=h["n"], initial_call=bool(h["init"]), **kw)
            else:
                out = self.objs[o](self.inputs[o], n_iter=h["n"], initial_call=bool(h["init"]), **kw)
                self.outputs[o] = np.array(out)
        except Exception as ex:  # noqa: BLE001 - any failure of the library is an observation
            if isinstance(ex, Abort) or own_fault(ex):
                raise
            self.emit(ev="exc", o=o, what=repr(ex)[:200])
            raise Abort()
        self.depth -= 1
        m = self.objs[o]
        self.emit(ev="ret", o=o, pos=self.view(o), nloss=self.nloss(o), lossat=self.lossat(o),
                  losses=[self.orbits[o].match_loss(v) for v in (m.loss or [])])

    def hand(self, h):
        """A fresh object continues from the saved parameters."""
        o = h["o"]
        kw = saved_params(self.objs[o])
        self.objs[o] = self.rebuild(o)
        self.first_kwargs[o] = kw
        self.called.discard(o)
        self.count[o] = 0
        self.emit(ev="hand", o=o)

    def step(self, h):
        o = h["o"]
        try:
            self.objs[o].update_once()
        except Exception as ex:  # noqa: BLE001
            if own_fault(ex):
                raise
            self.emit(ev="exc", o=o, what="manual update: " + repr(ex)[:200])
            raise Abort()
        self.emit(ev="step", o=o, pos=self.view(o))

    def run(self, hist):
        self.pending = [dict(h) for h in hist]
        try:
            while self.pending:
                h = self.pending.pop(0)
                {"call": self.call, "hand": self.hand, "step": self.step}[h.get("op", "call")](h)
        except Abort:
            pass
        return self.events


def saved_params(m):
    kw = {}
    for k in STATE:
        v = getattr(m, k, None)
        if v is not None:
            kw[k] = tuple(np.array(a) for a in v) if isinstance(v, (tuple, list)) else np.array(v)
    if "demix_filter" not in kw and "spatial" not in kw:
        X, Y = m.input.transpose(1, 0, 2), m.output.transpose(1, 0, 2)
        XH = X.conj().transpose(0, 2, 1)
        kw["demix_filter"] = Y @ XH @ np.linalg.inv(X @ XH)
    return kw


class Abort(Exception):
    pass

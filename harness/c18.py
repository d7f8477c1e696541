"""C18: the sample-data helper over histories of requests, against DatasetCache.tla.

The archives are stand-ins served through an opener installed in urllib; every
history lives in scratch directories of its own and in a process of its own.
"""
import email.message
import glob
import io
import json
import os
import pickle
import shutil
import tempfile
import urllib.error
import urllib.request
import urllib.response
import warnings
import wave
import zipfile

import numpy as np
from scipy.io import savemat
from scipy.signal import fftconvolve

from iterlib import own_fault
from rt import pmap, q

RATE = 16000
LEN = {"dev1_female3": (12000, 3), "dev1_female4": (10400, 4)}
FILES = {}


# ------------------------------------------------------------------ stand-in data
def source(tag, i):
    n = LEN[tag][0]
    rng = np.random.default_rng([ord(tag[-1]), i])
    return rng.integers(-20000, 20000, size=n).astype("<i2")


def pulses(rev, deg, mic):
    """Pulses (position in 16 kHz samples, amplitude): some before, one after the reverberation time."""
    rng = np.random.default_rng([rev, deg, mic])
    end = 16 * rev
    pos = list(rng.integers(30, end - 60, size=4)) + [end + 150 + int(rng.integers(0, 100))]
    return [(int(p), float(a)) for p, a in zip(pos, rng.uniform(0.4, 1.0, size=5) * rng.choice([-1, 1], size=5))]


def response(rev, deg, mic, rate, n):
    """Band-limited room response sampled at `rate` (so that any sound resampling agrees)."""
    t = np.arange(n) * (RATE / rate)
    return sum(a * np.exp(-0.5 * ((t - p) / 3.0) ** 2) for p, a in pulses(rev, deg, mic))


def speech_archive():
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for tag in list(LEN) + ["dev1_male3"]:
            z.writestr(f"{tag}_inst_matrix.mat", b"-")
            base = tag if tag in LEN else "dev1_female3"
            for i in range(1, LEN[base][1] + 1):
                w = io.BytesIO()
                with wave.open(w, "wb") as f:
                    f.setnchannels(1)
                    f.setsampwidth(2)
                    f.setframerate(RATE)
                    f.writeframes(source(base, i).tobytes())
                z.writestr(f"{tag}_src_{i}.wav", w.getvalue())
    return b.getvalue()


def room_archive(rev):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for deg in (0, 30, 60, 315, 330, 345):
            n = 48000 * (rev + 40) // 1000
            h = np.stack([response(rev, deg, mic, 48000, n) for mic in range(8)], axis=1)
            f = io.BytesIO()
            savemat(f, {"impulse_response": h, "simpar": 1})
            z.writestr(f"Impulse_response_Acoustic_Lab_Bar-Ilan_University_(Reverberation_{rev / 1000:.3f}s)_3-3-3-8-3-3-3_1m_{deg:03d}.mat", f.getvalue())
    return b.getvalue()


def archives():
    if not FILES:
        FILES["dev1"] = speech_archive()
        for rev in (160, 360, 610):
            FILES[str(rev)] = room_archive(rev)
    return FILES


class Cut(io.BytesIO):
    def read(self, n=-1):
        chunk = super().read(min(n, 4096) if n is not None and n > 0 else 4096)
        if self.tell() > len(self.getvalue()) // 2:
            raise ConnectionResetError("transfer cut")
        return chunk


class Whole(io.BytesIO):
    def __init__(self, data, done):
        super().__init__(data)
        self.done = done

    def read(self, n=-1):
        b = super().read(n)
        if self.tell() >= len(self.getvalue()):
            self.done()
        return b


class Net(urllib.request.BaseHandler):
    """Answers every http(s) request from the stand-in archives."""
    handler_order = 1

    def __init__(self):
        self.mode, self.served = "up", []

    def http_open(self, req):
        url = req.full_url
        if self.mode == "down":
            raise urllib.error.URLError("network is down")
        name = url.rsplit("/", 1)[-1]
        key = "dev1" if name == "dev1.zip" and "SiSEC10" in url else next(
            (str(r) for r in (160, 360, 610) if name == f"Impulse_response_Acoustic_Lab_Bar-Ilan_University__Reverberation_{r / 1000:.3f}s__3-3-3-8-3-3-3.zip"), None)
        if key is None:
            raise urllib.error.HTTPError(url, 404, "not found", email.message.Message(), None)
        data = archives()[key]
        head = email.message.Message()
        head["Content-Length"] = str(len(data))
        head["Content-Type"] = "application/zip"
        body = Cut(data) if self.mode == "cut" else Whole(data, lambda: self.served.append(key))
        r = urllib.response.addinfourl(body, head, url, 200)
        r.msg = "OK"
        return r

    https_open = http_open


# ------------------------------------------------------------------ running histories
def isolated(fn, *args):
    """fn(*args) in a child process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except BaseException as ex:  # noqa: BLE001
                import traceback
                out = ("err", traceback.format_exc() + str(ex))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    k, v = pickle.loads(data)
    if k == "err":
        raise RuntimeError(v)
    return v


def roots(base, which):
    if which == "-":
        return {}
    if which == "b":                                    # both archives in one directory
        return dict(sisec2010_root=os.path.join(base, "b"), mird_root=os.path.join(base, "b"))
    return dict(sisec2010_root=os.path.join(base, "a", "speech"), mird_root=os.path.join(base, "a", "rooms"))


def ask(step, base):
    from ssspy.utils.dataset import download_sample_speech_data
    r, kw = step["r"], roots(base, step["root"])
    full = dict(sisec2010_tag=r["tag"], n_sources=r["n"], reverb_duration=r["rev"] / 1000, max_duration=r["dur"] / RATE, conv=r["conv"])
    name = {"tag": "sisec2010_tag", "n": "n_sources", "rev": "reverb_duration", "dur": "max_duration", "conv": "conv"}
    kw.update({name[k]: full[name[k]] for k in name if k not in step["omit"]})
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            x, rate = download_sample_speech_data(**kw)
        return np.array(x), rate, ""
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex) and not isinstance(ex, (OSError, urllib.error.URLError)):
            raise
        return None, 0, type(ex).__name__ + ": " + str(ex)[:100]


def fresh_answer(step):
    with tempfile.TemporaryDirectory() as base:
        os.chdir(base)
        net = Net()
        urllib.request.install_opener(urllib.request.build_opener(net))
        try:
            return ask(step, base)
        finally:
            os.chdir("/")


def contents_error(x, want):
    """Largest deviation of any image from the one denoted (relative, 1e-3)."""
    worst = 0.0
    for c, row in enumerate(want["image"]):
        for s, im in enumerate(row):
            src = source(im["tag"], im["src"]).astype(float)[: x.shape[2]] / 32768
            y = x[c, s]
            if im["deg"] or im["taps"]:
                h = response(im["rev"], im["deg"], im["mic"], RATE, im["taps"])
                ref = fftconvolve(src, h)[: len(src)]
            else:
                e = np.dot(src, src)
                g = np.dot(src, y) / e if e > 0 else 0.0
                if e > 0 and abs(g) < 1e-6:
                    return 1e6
                ref = g * src
            d = np.max(np.abs(y - ref))
            worst = max(worst, d / max(np.max(np.abs(ref)), 1e-3))
    return worst


def history(case):
    ev = []
    fresh = case["fresh"]
    with tempfile.TemporaryDirectory() as base:
        os.chdir(base)
        net = Net()
        urllib.request.install_opener(urllib.request.build_opener(net))
        try:
            for k, st in enumerate(case["steps"]):
                start = 1 if k == 0 else 0
                if st["op"] == "evict":
                    rs = roots(base, st["root"]) or dict(a=os.path.join(base, ".data"))
                    for d in set(rs.values()):
                        if st["what"] == "all":
                            shutil.rmtree(d, ignore_errors=True)
                        else:
                            for f in glob.glob(os.path.join(d, "**", "*." + st["what"]), recursive=True):
                                os.remove(f)
                    ev.append(dict(ev="evict", op="evict", start=start, key=f"history{case['id']}/step{k}", root=st["root"], what=st["what"]))
                    continue
                net.mode, net.served = st["net"], []
                x, rate, exc = ask(st, base)
                f = fresh.get(json.dumps(st["r"], sort_keys=True))
                e = dict(ev="ask", op="ask", start=start, root=st["root"], r=st["r"], net=st["net"], raised=int(x is None), exc=exc,
                         served=list(net.served), rate=int(rate), shape=list(x.shape) if x is not None else [], image=st["want"]["image"], err=0, fresh=0,
                         key=f"ask/{st['r']['tag']}/n{st['r']['n']}/rev{st['r']['rev']}/dur{st['r']['dur']}/{'conv' if st['r']['conv'] else 'inst'}/history{case['id']}.{k}")
                if x is not None and st["want"]["shape"] == list(x.shape):
                    e["err"] = min(int(1000 * contents_error(x, st["want"])), 10**9)
                if x is not None and f is not None:
                    e["fresh"] = 2_000_000_000 if f[0] is None or f[0].shape != x.shape else q(np.max(np.abs(f[0] - x), initial=0))
                    x += 1.0                                     # what the caller does with an answer is its own business
                ev.append(e)
        finally:
            os.chdir("/")
    return ev


def fresh_of(st):
    return isolated(fresh_answer, dict(st, omit=[], root="a", net="up"))


def history_of(c):
    return isolated(history, c)


def run(ctx):
    ctx.model("DatasetCacheMC", "DatasetCacheMC" if ctx.quick else "DatasetCacheMCBig", workers=8, timeout=1500)
    cases = ctx.generate("DatasetGen", "DatasetGen" if ctx.quick else "DatasetGenBig", extra=("-seed", str(ctx.seed)))
    archives()
    asks = {json.dumps(s["r"], sort_keys=True): s for c in cases for s in c["steps"] if s["op"] == "ask" and s["want"]["shape"]}
    answers = dict(zip(asks, pmap(fresh_of, asks.values())))
    for c in cases:
        c["fresh"] = {k: answers[k] for k in (json.dumps(s["r"], sort_keys=True) for s in c["steps"] if s["op"] == "ask") if k in answers}
    ev = [e for h in pmap(history_of, cases) for e in h]
    ctx.sample({"history": [{k: v for k, v in e.items() if k != "image"} for e in ev[:4]]})
    ctx.extra["asks"] = sum(1 for e in ev if e["op"] == "ask")
    ctx.extra["answered"] = sum(1 for e in ev if e["op"] == "ask" and not e["raised"])
    ctx.extra["distinct_valid_requests"] = len(asks)
    ctx.validate("DatasetTrace", ev, chunk=300, ntraces=len(cases))
    ctx.assumptions += ["the archives are stand-ins with the layout and naming of SiSEC2010 dev1 and MIRD; shorter recordings",
                        "a process killed while writing a digested file or unpacking an archive is outside the property"]

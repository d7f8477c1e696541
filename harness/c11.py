"""C11: WAV files at byte level against Wav.tla."""
import os
import random
import tempfile

import numpy as np

from rt import pmap

from ssspy import wavread, wavwrite

OK = ("i1", "i2", "f2", "f4", "f8", "f16")
CORNERS = {"i1": [-128, -127, -1, 0, 1, 126, 127], "i2": [-32768, -32767, -256, -255, -1, 0, 1, 127, 128, 255, 256, 32766, 32767]}
# numerators over 2^20: half steps, full scale, beyond full scale, tiny ones
FLOATS = [0, 1, -1, 16, -16, 31, -31, 32, -32, 33, 48, -48, 1000, -1000, 1048575, 1048576, -1048576, -1048575,
          1048544, 1048543, 1048545, 1048560, -1048577, 1200000, -1200000, 2097152, -2097152, 524288, -524288, 104858, -333333]


def layout(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "offset":
        b = np.zeros((a.shape[0] + 1,) + a.shape[1:], a.dtype)
        b[1:] = a
        return b[1:]
    a = a.copy()
    if how == "readonly":
        a.flags.writeable = False
    return a


def write_events(args):
    c, seed = args
    rng = np.random.default_rng(seed)
    n, ch = c["n"], c["ch"]
    shape = (n, ch)
    dt = {"bool": "?", "f16": np.longdouble}.get(c["dtype"], c["dtype"])
    frames = None
    if c["dtype"] in CORNERS:
        vals = rng.choice(CORNERS[c["dtype"]], size=shape) if seed % 2 else rng.integers(
            -128 if c["dtype"] == "i1" else -32768, 128 if c["dtype"] == "i1" else 32768, size=shape)
        frames = vals.tolist()
        a = vals.astype(dt)
    elif c["dtype"].startswith("f"):
        if seed % 2:
            vals = rng.choice(FLOATS, size=shape)
        else:
            vals = rng.integers(-1100000, 1100000, size=shape)
        a = (vals.astype("f8") / 2**20).astype(dt)
        vals = np.asarray(a.astype("f8") * 2**20)
        keep = vals == np.round(vals)
        a = np.where(keep, a, np.zeros_like(a))
        frames = np.where(keep, vals, 0).astype(int).tolist()
    else:
        a = rng.integers(0, 2, size=shape).astype(dt)
        frames = np.real(a).astype(int).tolist()
    form = c["form"]
    if form == "1d":
        arr = a[:, 0]
        cf = [None, True, False][seed % 3]
    elif form == "first":
        arr = a.T
        cf = True
    else:
        arr = a
        cf = [None, False][seed % 2]
    arr = layout(arr, c["layout"])
    allowed = c["dtype"] in OK and ch in (1, 2)
    key = f"write/{c['dtype']}/{form}/{c['layout']}/ch{ch}/n{n}/r{c['rate']}/s{seed}"
    ev = dict(ev="write", start=1, key=key, allowed=int(allowed), raised=0, ch=ch, rate=c["rate"],
              w=1 if c["dtype"] == "i1" else 2, float=int(c["dtype"].startswith("f")), frames=frames, bytes=[], kept=1)
    evs = [ev]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x.wav")
        old = b"previous contents"
        if seed % 2:
            with open(p, "wb") as f:
                f.write(old * 5)
        before = open(p, "rb").read() if os.path.exists(p) else None
        keep = arr.copy()
        try:
            wavwrite(p, arr, c["rate"], channels_first=cf)
        except Exception as ex:  # noqa: BLE001
            ev["raised"] = 1
            ev["what"] = repr(ex)[:100]
            now = open(p, "rb").read() if os.path.exists(p) else None
            ev["kept"] = int(now == before)
            return evs
        ev["bytes"] = list(open(p, "rb").read())
        if not np.array_equal(np.asarray(keep), np.asarray(arr)):
            ev["frames"] = "input modified"
        # reading back, and writing what was read
        evs.append(read_event(p, c["rate"], 0, None, [None, True, False][seed % 3], [None, True, False][(seed // 3) % 3], key + "/readback", d))
        if ev["w"] == 2:
            r = dict(ev="rewrite", start=1, key=key + "/rewrite", raised=0, before=ev["bytes"], after=[])
            try:
                two = seed % 2 == 0
                cf2 = [None, True, False][seed % 3]
                y, sr = wavread(p, return_2d=two, channels_first=cf2)
                p2 = os.path.join(d, "y.wav")
                wavwrite(p2, y, sr, channels_first=cf2)
                r["after"] = list(open(p2, "rb").read())
            except Exception as ex:  # noqa: BLE001
                r["raised"] = 1
                r["what"] = repr(ex)[:100]
            evs.append(r)
    return evs


def read_event(p, rate, off, num, two, first, key, d, style=0):
    raw = open(p, "rb").read()
    bits = int.from_bytes(raw[34:36], "little") if len(raw) >= 36 else 16
    ev = dict(ev="read", start=1, key=f"{key}/off{off}num{num}two{two}first{first}", bytes=list(raw), off=off, num=-999 if num is None else num,
              two=int(two is True), first=int(first is True), raised=0, detached=1, rate=0, shape=[], out=[])
    q = os.path.join(d, "r.wav")
    with open(q, "wb") as f:
        f.write(raw)
    kw = {}
    if off or style % 2:
        kw["frame_offset"] = off
    if num is not None or style % 3:
        kw["num_frames"] = num
    if two is not None:
        kw["return_2d"] = two
    if first is not None:
        kw["channels_first"] = first
    try:
        y, sr = wavread(q, **kw)
    except Exception as ex:  # noqa: BLE001
        ev["raised"] = 1
        ev["what"] = repr(ex)[:100]
        return ev
    a = np.array(y)
    with open(q, "r+b") as f:
        f.write(bytes(255 - b for b in raw))
    ev["detached"] = int(np.array_equal(a, np.array(y)))
    v = a.astype("f8") * 2.0 ** (bits - 1)
    if not np.array_equal(v, np.round(v)):
        v = np.full(v.shape, 123456789)
    ev["shape"] = list(a.shape)
    ev["out"] = v.astype(int).tolist()
    ev["rate"] = int(sr)
    return ev


def file_events(args):
    c, full = args
    evs = []
    b = bytes(c["bytes"])
    n = 4
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x.wav")
        with open(p, "wb") as f:
            f.write(b)
        k = 0
        for off in (0, 1, 3, 4, 5, 7, -1, -2, -13):
            for num in (None, 0, 1, 2, 4, 5, -1):
                combos = [(t, f) for t in (None, True, False) for f in (None, True, False)]
                for (t, f) in combos if full else [combos[k % 9]]:
                    evs.append(read_event(p, 0, off, num, t, f, f"file/{c['name']}/{hash(b) % 9973}", d, style=k))
                    k += 1
    return evs


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("Wav", "Wav")
    cases = ctx.generate("WavGen", "WavGen")
    writes = [c for c in cases if c["kind"] == "write"]
    files = [c for c in cases if c["kind"] == "file"]
    ok = [c for c in writes if c["dtype"] in OK and c["ch"] < 3]
    bad = [c for c in writes if not (c["dtype"] in OK and c["ch"] < 3)]
    rnd.shuffle(ok)
    rnd.shuffle(bad)
    if ctx.quick:
        ok, bad = ok[:1500], bad[:200]
    jobs = [(c, ctx.seed + i) for i, c in enumerate(ok + bad)]
    evs = []
    for t in pmap(write_events, jobs):
        evs += t
    for t in pmap(file_events, [(c, not ctx.quick) for c in files]):
        evs += t
    ctx.extra.update(write_programs=len(jobs), files=len(files))
    ctx.sample({k: v for k, v in evs[0].items() if k != "bytes"})
    ctx.sample(jobs[3][0])
    ctx.validate("WavTrace", evs, chunk=1500)
    ctx.assumptions += ["8-bit samples are stored as the library does, signed", "one data chunk directly after fmt, as the library requires"]

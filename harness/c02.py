"""C02: resumption, over split/continue histories generated from IterativeMethod.tla."""
import random

import numpy as np

from iterlib import Orbit, Replayer, call_kwargs, catalogue, data_for, has_loss, own_fault, plain_kwargs, uses_output_state
from rt import pmap


def sig(hist):
    return ",".join({"call": str(h["n"]) + ("i" if h["init"] else "-"), "hand": "H", "step": "S"}[h["op"]] for h in hist)


def trace(args):
    name, case, seed, nfr = args
    e = catalogue()[name]
    n_ch = 3 if (seed + len(name)) % 2 == 0 and e.kind != "real" else 2
    x = data_for(e, seed, n_ch=n_ch, n_frames=nfr)
    N = sum(h["n"] for h in case["hist"])
    key = f"{name}/{sig(case['hist'])}/ch{n_ch}/s{seed}"
    if uses_output_state(e) and sum(1 for h in case["hist"] if h["op"] == "call" and h is not case["hist"][0]):
        key = f"recall/{key}"
        # a continuation through a fresh object is supported by these methods
        ops = [h["op"] for h in case["hist"]]
        if all(ops[i - 1] == "hand" for i in range(1, len(ops)) if ops[i] == "call"):
            key = key[len("recall/"):]
    try:
        orb = Orbit(e, x, seed, N)
    except Exception as ex:  # noqa: BLE001
        if own_fault(ex):
            raise
        return [dict(ev="new", start=1, quiet=1, cfg=[case["cfg"][0]], key=key),
                dict(ev="exc", o=1, what=repr(ex)[:200], key=key)]
    # ISS2 leaves the phase of each source and bin to the eigen-solver when it
    # restarts from a recovered filter
    orb.free_phase = "ISS2" in name and any(h["op"] == "hand" for h in case["hist"])
    c = dict(case["cfg"][0])
    if not has_loss(e):
        c["rec"] = 0
    objs = {}
    r = Replayer(objs, {1: orb}, {1: x}, {1: c}, key, first_kwargs={1: call_kwargs(e, x)})

    def build(o):
        cbs = [r.callback(1, j + 1) for j in range(c["ncb"])]
        return e.build(seed, callbacks=cbs or None, record_loss=bool(c["rec"]), **plain_kwargs(e))

    r.rebuild = build
    objs[1] = build(1)
    ev = r.run(case["hist"])
    # the returned signals are those of the uninterrupted run
    if ev[-1]["ev"] == "ret":
        okay = orb.match_output(r.outputs[1])
        ev[-1]["pos"] = [p for p in ev[-1]["pos"] if p in okay]
    return ev


def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model("IterativeMethod", "IterResume")
    cases = ctx.generate("IterGen", "IterGen1")
    good = []
    for c in cases:
        h = c["hist"]
        calls = [x for x in h if x["op"] == "call"]
        if not calls[0]["init"] or any(x["init"] for x in calls[1:]):
            continue
        if not 1 <= sum(x["n"] for x in h) <= 6 or sum(x["n"] for x in calls[1:]) == 0:
            continue
        good.append(c)
    rnd.shuffle(good)
    ctx.extra["histories"] = len(good)
    plain = [c for c in good if all(h["op"] == "call" for h in c["hist"])]
    hand = [c for c in good if any(h["op"] == "hand" for h in c["hist"])]
    step = [c for c in good if any(h["op"] == "step" for h in c["hist"])]
    # histories usable by methods that cannot be called twice: call, handover, call
    iss = [dict(c, hist=c["hist"][:3]) for c in good if [h["op"] for h in c["hist"]][:3] == ["call", "hand", "call"]
           and c["hist"][2]["n"]]
    jobs = []
    names = sorted(n for n in catalogue() if catalogue()[n].cls.__name__ != "CACGMM")
    per = 2 if ctx.quick else 12
    i = 0
    for name in names:
        for k in range(per):
            if uses_output_state(catalogue()[name]):
                jobs.append((name, iss[(i * 5) % len(iss)], ctx.seed + k, 30))
                if k == 0:
                    jobs.append((name, plain[i % len(plain)], ctx.seed + k, 30))
            else:
                for pool in (plain, hand, step):
                    jobs.append((name, pool[(i * 7) % len(pool)], ctx.seed + k, 30))
            i += 1
    evs = []
    for t in pmap(trace, jobs):
        evs += t
    ctx.sample({"method": jobs[0][0], "history": jobs[0][1]})
    ctx.sample({"method": jobs[-1][0], "history": jobs[-1][1]})
    ctx.extra["methods"] = len(names)
    ctx.validate("IterTrace", evs)
    ctx.assumptions += ["states compared up to 1e-8 relative against runs of k updates by fresh objects"]

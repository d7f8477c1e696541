"""Wide list of configurations for the checks that watch a run iteration by iteration."""
import functools
import inspect
import warnings

import numpy as np

from c04 import extra_entries
from catalog import (
    Entry,
    combination_pair_selector,
    sequential_pair_selector,
)
from iterlib import call_kwargs, catalogue, data_for, plain_kwargs
from ssspy.bss.fdica import AuxLaplaceFDICA
from ssspy.bss.ilrma import GGDILRMA, TILRMA, GaussILRMA
from ssspy.bss.ipsdta import GaussIPSDTA, TIPSDTA
from ssspy.bss.iva import ADMMIVA, PDSIVA, AuxGaussIVA, AuxLaplaceIVA
from ssspy.bss.mnmf import FastGaussMNMF, GaussMNMF


@functools.lru_cache(None)
def wide():
    E = dict(catalogue())
    E.update(extra_entries())

    def add(name, cls, kw, seeded=True):
        E[name] = Entry(name, cls, kw, seeded=seeded)

    for p in (0.5, 1.5):
        for part in (False, True):
            t = f"x/p{p}/{'part' if part else 'full'}"
            add(f"GaussILRMA/{t}", GaussILRMA, dict(n_basis=3, domain=p, partitioning=part))
            add(f"TILRMA/{t}", TILRMA, dict(n_basis=3, dof=4, domain=p, partitioning=part))
            add(f"GGDILRMA/{t}", GGDILRMA, dict(n_basis=3, beta=1.4, domain=p, partitioning=part))
    for nu in (1, 2.5, 100):
        add(f"TILRMA/x/dof{nu}", TILRMA, dict(n_basis=2, dof=nu))
        add(f"TILRMA/x/ME/dof{nu}", TILRMA, dict(n_basis=2, dof=nu, source_algorithm="ME"))
        add(f"TIPSDTA/x/dof{nu}", TIPSDTA, dict(n_basis=2, n_blocks=2, dof=nu))
    for b in (0.5, 1, 1.9):
        add(f"GGDILRMA/x/beta{b}", GGDILRMA, dict(n_basis=2, beta=b))
        add(f"GGDILRMA/x/part/beta{b}", GGDILRMA, dict(n_basis=4, beta=b, partitioning=True))
    for sp in ("IP2", "ISS1", "ISS2", "IPA"):
        add(f"GaussILRMA/x/part/{sp}", GaussILRMA, dict(n_basis=4, spatial_algorithm=sp, partitioning=True))
        if sp != "IPA":
            add(f"TILRMA/x/part/{sp}", TILRMA, dict(n_basis=4, dof=6, spatial_algorithm=sp, partitioning=True))
            add(f"GGDILRMA/x/part/{sp}", GGDILRMA, dict(n_basis=4, beta=1.5, spatial_algorithm=sp, partitioning=True))
        add(f"GaussILRMA/x/pb/{sp}", GaussILRMA, dict(n_basis=2, spatial_algorithm=sp, normalization="projection_back"))
        add(f"GaussILRMA/x/ME/{sp}", GaussILRMA, dict(n_basis=2, spatial_algorithm=sp, source_algorithm="ME"))
    for tag, sel in (("comb", combination_pair_selector), ("step2", functools.partial(sequential_pair_selector, step=2))):
        add(f"AuxLaplaceFDICA/x/IP2/{tag}", AuxLaplaceFDICA, dict(spatial_algorithm="IP2", pair_selector=sel), seeded=False)
        add(f"AuxLaplaceIVA/x/IP2/{tag}", AuxLaplaceIVA, dict(spatial_algorithm="IP2", pair_selector=sel), seeded=False)
        add(f"AuxLaplaceIVA/x/ISS2/{tag}", AuxLaplaceIVA, dict(spatial_algorithm="ISS2", pair_selector=sel), seeded=False)
        add(f"AuxGaussIVA/x/IP2/{tag}", AuxGaussIVA, dict(spatial_algorithm="IP2", pair_selector=sel), seeded=False)
        add(f"GaussILRMA/x/IP2/{tag}", GaussILRMA, dict(n_basis=2, spatial_algorithm="IP2", pair_selector=sel))
        add(f"GaussILRMA/x/ISS2/{tag}", GaussILRMA, dict(n_basis=2, spatial_algorithm="ISS2", pair_selector=sel))
        add(f"FastGaussMNMF/x/IP2/{tag}", FastGaussMNMF, dict(n_basis=2, diagonalizer_algorithm="IP2", pair_selector=sel))
    for nb in (1, 3):
        add(f"GaussIPSDTA/x/blocks{nb}", GaussIPSDTA, dict(n_basis=2, n_blocks=nb))
        add(f"TIPSDTA/x/blocks{nb}", TIPSDTA, dict(n_basis=2, n_blocks=nb, dof=5))
    for k in (1, 5):
        add(f"GaussILRMA/x/k{k}", GaussILRMA, dict(n_basis=k))
        add(f"GaussMNMF/x/k{k}", GaussMNMF, dict(n_basis=k))
        add(f"FastGaussMNMF/x/k{k}", FastGaussMNMF, dict(n_basis=k))
    add("PDSIVA/x/default", PDSIVA, {}, seeded=False)
    add("ADMMIVA/x/default", ADMMIVA, {}, seeded=False)
    add("PDSIVA/x/relax", PDSIVA, dict(mu1=0.7, mu2=1.3, relaxation=0.8), seeded=False)
    add("ADMMIVA/x/relax", ADMMIVA, dict(rho=1.7, relaxation=0.8), seeded=False)
    return E


SHAPES = [dict(n_ch=2, n_bins=5, n_frames=32), dict(n_ch=3, n_bins=4, n_frames=40), dict(n_ch=4, n_bins=3, n_frames=60)]


def options(e, tag):
    """Constructor overrides of a named variant, or None when the method has no such option."""
    have = inspect.signature(e.cls.__init__).parameters
    if tag == "default":
        return {}
    if tag == "plain":
        return dict(plain_kwargs(e))
    if tag == "nofloor":
        return {"flooring_fn": None} if "flooring_fn" in have else None
    if tag == "lastref":
        return {"reference_id": -1} if "reference_id" in have and "HVA" not in e.name else None
    if tag == "mdp":
        return {"scale_restoration": "minimal_distortion_principle"} \
            if "scale_restoration" in have and "IPSDTA" not in e.name else None
    raise KeyError(tag)


def follow(e, seed, shape, n_iter, visit, over=None, call=None, gain=1, data=None):
    """Runs the method, calling visit(object, evaluation number) on every evaluated state."""
    x = (data_for(e, seed, **shape) if data is None else data) * gain
    box = [0]

    def cb(m):
        visit(m, box[0])
        box[0] += 1

    kw = dict(over or {})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = e.build(seed, callbacks=cb, **kw)
        out = m(x.copy(), n_iter=n_iter, **dict(call_kwargs(e, x), **(call or {})))
    return m, x, out


def step_plan(e, quick):
    return SHAPES if e.kind != "real" else SHAPES[:3]

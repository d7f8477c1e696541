"""Catalogue of every separation method of ssspy, built only through the public API.

Each Entry knows how to build a fresh, identically configured object and what
input it takes.  Nothing here looks at private attributes.
"""
import functools
import warnings

import numpy as np

warnings.filterwarnings("ignore")
np.seterr(all="ignore")

from ssspy.bss.admmbss import ADMMBSS, MaskingADMMBSS  # noqa: E402
from ssspy.bss.cacgmm import CACGMM  # noqa: E402
from ssspy.bss.fdica import (  # noqa: E402
    AuxFDICA,
    AuxLaplaceFDICA,
    GradFDICA,
    GradLaplaceFDICA,
    NaturalGradFDICA,
    NaturalGradLaplaceFDICA,
)
from ssspy.bss.hva import HVA, MaskingADMMHVA, MaskingPDSHVA  # noqa: E402
from ssspy.bss.ica import (  # noqa: E402
    FastICA,
    GradICA,
    GradLaplaceICA,
    NaturalGradICA,
    NaturalGradLaplaceICA,
)
from ssspy.bss.ilrma import GGDILRMA, TILRMA, GaussILRMA  # noqa: E402
from ssspy.bss.ipsdta import TIPSDTA, GaussIPSDTA  # noqa: E402
from ssspy.bss.iva import (  # noqa: E402
    ADMMIVA,
    PDSIVA,
    AuxGaussIVA,
    AuxIVA,
    AuxLaplaceIVA,
    FasterIVA,
    FastIVA,
    GradGaussIVA,
    GradIVA,
    GradLaplaceIVA,
    NaturalGradGaussIVA,
    NaturalGradIVA,
    NaturalGradLaplaceIVA,
)
from ssspy.bss.mnmf import FastGaussMNMF, GaussMNMF  # noqa: E402
from ssspy.bss.pdsbss import PDSBSS, MaskingPDSBSS  # noqa: E402
from ssspy.linalg import prox  # noqa: E402
from ssspy.special.flooring import add_flooring, max_flooring  # noqa: E402
from ssspy.utils.select_pair import (  # noqa: E402
    combination_pair_selector,
    sequential_pair_selector,
)

EPS = 1e-12


# ---------------------------------------------------------------- data
def tf_mixture(seed, n_ch=2, n_bins=5, n_frames=16, n_src=None, noise=0.05):
    """Complex (n_ch, n_bins, n_frames) convolutive mixture of sparse sources."""
    rng = np.random.default_rng(seed)
    n_src = n_src or n_ch
    act = rng.gamma(1.0, 1.0, size=(n_src, 1, n_frames)) + 0.2
    shape = rng.gamma(2.0, 0.5, size=(n_src, n_bins, 1)) + 0.2
    g = rng.standard_normal((n_src, n_bins, n_frames)) + 1j * rng.standard_normal(
        (n_src, n_bins, n_frames)
    )
    src = act * shape * g
    mix = rng.standard_normal((n_bins, n_ch, n_src)) + 1j * rng.standard_normal(
        (n_bins, n_ch, n_src)
    )
    x = np.einsum("fcs,sft->cft", mix, src)
    x = x + noise * (rng.standard_normal(x.shape) + 1j * rng.standard_normal(x.shape))
    return x / np.sqrt(np.mean(np.abs(x) ** 2))


def real_mixture(seed, n_ch=2, n_samples=200):
    rng = np.random.default_rng(seed)
    s = rng.laplace(size=(n_ch, n_samples))
    a = rng.standard_normal((n_ch, n_ch)) + np.eye(n_ch)
    return a @ s


# ---------------------------------------------------------------- user functions
def ica_contrast(y):
    return np.log(np.cosh(y))


def ica_score(y):
    return np.tanh(y)


def ica_dscore(y):
    return 1 - np.tanh(y) ** 2


def fdica_contrast(y):  # smooth Laplace
    return 2 * np.sqrt(np.abs(y) ** 2 + 1e-2)


def fdica_score(y):
    return y / np.sqrt(np.abs(y) ** 2 + 1e-2)


def fdica_dcontrast(r):
    return 2 * r / np.sqrt(r**2 + 1e-2)


def fdica_contrast_lap(y):
    return 2 * np.abs(y)


def fdica_dcontrast_lap(y):
    return 2 * np.ones_like(y)


def fdica_score_lap(y):
    d = np.maximum(np.abs(y), 1e-10)
    return y / d


def iva_contrast(y):
    return 2 * np.linalg.norm(y, axis=1)


def iva_score(y):
    n = np.linalg.norm(y, axis=1, keepdims=True)
    return y / np.maximum(n, 1e-10)


def iva_dcontrast(r):
    return 2 * np.ones_like(r)


def iva_ddcontrast(r):
    return np.zeros_like(r)


def iva_contrast_s(y):  # smooth
    n = np.linalg.norm(y, axis=1)
    return 2 * np.sqrt(n**2 + 1e-1)


def iva_score_s(y):
    n = np.linalg.norm(y, axis=1, keepdims=True)
    return y / np.sqrt(n**2 + 1e-1)


def iva_dcontrast_s(r):
    return 2 * r / np.sqrt(r**2 + 1e-1)


def iva_ddcontrast_s(r):
    return 2 * 1e-1 / (r**2 + 1e-1) ** 1.5


def l21_penalty(y):
    return np.sum(np.linalg.norm(y, axis=1))


def l21_prox(y, step_size=1):
    return prox.l21(y, step_size=step_size, axis2=1)


def l1_penalty(y):
    return np.sum(np.abs(y))


def l1_prox(y, step_size=1):
    return prox.l1(y, step_size=step_size)


def lap_mask(y):
    n = np.linalg.norm(y, axis=1, keepdims=True)
    return np.broadcast_to(np.maximum(1 - 0.3 / np.maximum(n, 1e-10), 0), y.shape)


def iva_prox_p(y, step_size=1):
    n = np.linalg.norm(y, axis=1, keepdims=True)
    return y * np.maximum(1 - 2 * step_size / np.maximum(n, 1e-10), 0)


class Entry:
    def __init__(self, name, cls, kwargs=None, kind="tf", seeded=False, call=None, **flags):
        self.name = name
        self.cls = cls
        self.kwargs = kwargs or {}
        self.kind = kind
        self.seeded = seeded  # takes rng
        self.flags = flags

    def build(self, seed=0, **over):
        kw = dict(self.kwargs)
        kw.update(over)
        if self.seeded and "rng" not in kw:
            kw["rng"] = np.random.default_rng(1000 + seed)
        if self.cls in FLOAT_FIRST:
            pass
        return self.cls(**kw)

    def data(self, seed=0, **kw):
        if self.kind == "real":
            return real_mixture(seed, kw.get("n_ch", 2), kw.get("n_samples", 120))
        return tf_mixture(seed, **kw)

    def __repr__(self):
        return f"<{self.name}>"


FLOAT_FIRST = ()


def _pairsel(name):
    return {
        "comb": combination_pair_selector,
        "seq1": functools.partial(sequential_pair_selector, sort=False),
        "seq2": functools.partial(sequential_pair_selector, step=2),
    }[name]


SPATIAL = ["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"]


def entries():
    E = []

    def add(name, cls, kwargs=None, **k):
        E.append(Entry(name, cls, kwargs, **k))

    ica_kw = dict(contrast_fn=ica_contrast, score_fn=ica_score)
    for hol in (False, True):
        h = "/hol" if hol else ""
        add("GradICA" + h, GradICA, dict(step_size=0.05, is_holonomic=hol, **ica_kw), kind="real")
        add("NaturalGradICA" + h, NaturalGradICA, dict(step_size=0.05, is_holonomic=hol, **ica_kw), kind="real")
        add("GradLaplaceICA" + h, GradLaplaceICA, dict(step_size=0.05, is_holonomic=hol), kind="real")
        add("NaturalGradLaplaceICA" + h, NaturalGradLaplaceICA, dict(step_size=0.05, is_holonomic=hol), kind="real")
    add("FastICA", FastICA, dict(contrast_fn=ica_contrast, score_fn=ica_score, d_score_fn=ica_dscore), kind="real")

    for hol in (False, True):
        h = "/hol" if hol else ""
        kw = dict(step_size=0.05, is_holonomic=hol)
        add("GradFDICA" + h, GradFDICA, dict(contrast_fn=fdica_contrast, score_fn=fdica_score, **kw))
        add("NaturalGradFDICA" + h, NaturalGradFDICA, dict(contrast_fn=fdica_contrast, score_fn=fdica_score, **kw))
        add("GradLaplaceFDICA" + h, GradLaplaceFDICA, kw)
        add("NaturalGradLaplaceFDICA" + h, NaturalGradLaplaceFDICA, kw)
    for sp in ("IP", "IP1", "IP2"):
        add(f"AuxFDICA/{sp}", AuxFDICA, dict(spatial_algorithm=sp, contrast_fn=fdica_contrast, d_contrast_fn=fdica_dcontrast))
        add(f"AuxLaplaceFDICA/{sp}", AuxLaplaceFDICA, dict(spatial_algorithm=sp))

    for hol in (False, True):
        h = "/hol" if hol else ""
        kw = dict(step_size=0.05, is_holonomic=hol)
        add("GradIVA" + h, GradIVA, dict(contrast_fn=iva_contrast_s, score_fn=iva_score_s, **kw))
        add("NaturalGradIVA" + h, NaturalGradIVA, dict(contrast_fn=iva_contrast_s, score_fn=iva_score_s, **kw))
        for c in (GradLaplaceIVA, NaturalGradLaplaceIVA, GradGaussIVA, NaturalGradGaussIVA):
            add(c.__name__ + h, c, kw)
    add("FastIVA", FastIVA, dict(contrast_fn=iva_contrast_s, d_contrast_fn=iva_dcontrast_s, dd_contrast_fn=iva_ddcontrast_s))
    add("FasterIVA", FasterIVA, dict(contrast_fn=iva_contrast_s, d_contrast_fn=iva_dcontrast_s))
    for sp in SPATIAL:
        add(f"AuxIVA/{sp}", AuxIVA, dict(spatial_algorithm=sp, contrast_fn=iva_contrast_s, d_contrast_fn=iva_dcontrast_s))
        add(f"AuxLaplaceIVA/{sp}", AuxLaplaceIVA, dict(spatial_algorithm=sp))
        add(f"AuxGaussIVA/{sp}", AuxGaussIVA, dict(spatial_algorithm=sp))
    add("PDSIVA", PDSIVA, dict(contrast_fn=iva_contrast, prox_penalty=iva_prox_p))
    add("ADMMIVA", ADMMIVA, dict(contrast_fn=iva_contrast, prox_penalty=iva_prox_p))

    for sp in SPATIAL:
        add(f"GaussILRMA/{sp}", GaussILRMA, dict(n_basis=2, spatial_algorithm=sp), seeded=True)
        if sp != "IPA":
            add(f"TILRMA/{sp}", TILRMA, dict(n_basis=2, dof=10, spatial_algorithm=sp), seeded=True)
            add(f"GGDILRMA/{sp}", GGDILRMA, dict(n_basis=2, beta=1.5, spatial_algorithm=sp), seeded=True)
    for part in (False, True):
        for alg in ("MM", "ME"):
            for dom in (1, 2):
                for norm in (True, "projection_back", False):
                    if part and norm == "projection_back":
                        continue
                    if alg == "ME" and dom != 2:
                        continue
                    tag = f"{alg}/p{dom}/{'part' if part else 'full'}/{norm}"
                    kw = dict(n_basis=3, spatial_algorithm="IP", source_algorithm=alg, domain=dom, partitioning=part, normalization=norm)
                    add(f"GaussILRMA/{tag}", GaussILRMA, kw, seeded=True)
                    add(f"TILRMA/{tag}", TILRMA, dict(dof=5, **kw), seeded=True)
                    if alg == "MM":
                        add(f"GGDILRMA/{tag}", GGDILRMA, dict(beta=1.2, **kw), seeded=True)

    for part in (False, True):
        for norm in (True, False):
            tag = f"{'part' if part else 'full'}/{norm}"
            add(f"GaussMNMF/{tag}", GaussMNMF, dict(n_basis=2, partitioning=part, normalization=norm), seeded=True)
            for da in () if part else ("IP", "IP1", "IP2"):
                add(f"FastGaussMNMF/{da}/{tag}", FastGaussMNMF, dict(n_basis=2, partitioning=part, normalization=norm, diagonalizer_algorithm=da), seeded=True)
    for norm in (True, False):
        add(f"GaussIPSDTA/{norm}", GaussIPSDTA, dict(n_basis=2, n_blocks=2, source_normalization=norm), seeded=True)
        add(f"TIPSDTA/{norm}", TIPSDTA, dict(n_basis=2, n_blocks=2, dof=10, source_normalization=norm), seeded=True)
    for pa in (True, False, "posterior_score", "amplitude_score", "amplitude_correlation"):
        add(f"CACGMM/{pa}", CACGMM, dict(permutation_alignment=pa), seeded=True)
    add("CACGMM/nonorm", CACGMM, dict(normalization=False), seeded=True)
    add("PDSBSS", PDSBSS, dict(penalty_fn=l21_penalty, prox_penalty=l21_prox, record_loss=True))
    add("PDSBSS/multi", PDSBSS, dict(penalty_fn=[l21_penalty, l1_penalty], prox_penalty=[l21_prox, l1_prox], record_loss=True))
    add("MaskingPDSBSS", MaskingPDSBSS, dict(mask_fn=lap_mask))
    add("ADMMBSS", ADMMBSS, dict(penalty_fn=l21_penalty, prox_penalty=l21_prox, record_loss=True))
    add("ADMMBSS/multi", ADMMBSS, dict(penalty_fn=[l21_penalty, l1_penalty], prox_penalty=[l21_prox, l1_prox], record_loss=True))
    add("MaskingADMMBSS", MaskingADMMBSS, dict(mask_fn=lap_mask))
    add("MaskingPDSHVA", MaskingPDSHVA, dict())
    add("MaskingADMMHVA", MaskingADMMHVA, dict())
    add("HVA", HVA, dict())
    return E

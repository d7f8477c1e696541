"""Every public array function of ssspy with a generator of generic arguments.

table(): name -> (function, builder); builder(rng) -> (args, kwargs, writes)
  args    list of arrays handed over positionally
  writes  indices of args the documentation says are overwritten (with which returned value)
"""
import functools

import numpy as np

from ssspy import algorithm, linalg, special, transform
from ssspy.algorithm.permutation_alignment import (
    correlation_based_permutation_solver,
    score_based_permutation_solver,
)
from ssspy.bss import _update_spatial_model as usm
from ssspy.linalg import prox
from ssspy.linalg._solve import solve
from ssspy.linalg.lqpqm import lqpqm2, solve_equation
from ssspy.linalg.polynomial import solve_cubic
from ssspy.linalg.cubic import cbrt
from ssspy.special.flooring import add_flooring, identity, max_flooring
from ssspy.utils.select_pair import combination_pair_selector


def cplx(rng, *s):
    return rng.standard_normal(s) + 1j * rng.standard_normal(s)


def real(rng, *s):
    return rng.standard_normal(s)


def spd(rng, *s, c=True):
    b, n = s[:-1], s[-1]
    z = cplx(rng, *b, n, 2 * n) if c else real(rng, *b, n, 2 * n)
    return z @ z.conj().swapaxes(-1, -2) / (2 * n) + 0.1 * np.eye(n)


def table():
    T = {}

    def add(name, f, build, writes=()):
        T[name] = (f, build, tuple(writes))

    for c in (True, False):
        g = cplx if c else real
        t = "c" if c else "r"
        add(f"inv2/{t}", linalg.inv2, lambda r, g=g: ([g(r, 3, 2, 2, 2)], {}))
        add(f"sqrtmh/{t}", linalg.sqrtmh, lambda r, c=c: ([spd(r, 2, 3, 3, c=c)], {}))
        add(f"invsqrtmh/{t}", linalg.invsqrtmh, lambda r, c=c: ([spd(r, 2, 3, 3, c=c)], {}))
        add(f"invsqrtmh/{t}/floor", linalg.invsqrtmh, lambda r, c=c: ([spd(r, 4, 3, c=c)], {"flooring_fn": max_flooring}))
        add(f"quadratic/{t}", linalg.quadratic, lambda r, g=g: ([g(r, 3, 2, 4), g(r, 3, 2, 4, 4)], {}))
        add(f"eigh/{t}", linalg.eigh, lambda r, c=c: ([spd(r, 3, 3, c=c)], {}))
        add(f"eigh2/{t}", linalg.eigh2, lambda r, c=c: ([spd(r, 3, 2, c=c)], {}))
        for ty in (1, 2, 3):
            add(f"eigh/{t}/{ty}", linalg.eigh, lambda r, c=c, ty=ty: ([spd(r, 2, 2, 3, c=c), spd(r, 2, 2, 3, c=c)], {"type": ty}))
            add(f"eigh2/{t}/{ty}", linalg.eigh2, lambda r, c=c, ty=ty: ([spd(r, 4, 2, c=c), spd(r, 4, 2, c=c)], {"type": ty}))
            add(f"gmeanmh/{t}/{ty}", linalg.gmeanmh, lambda r, c=c, ty=ty: ([spd(r, 4, 3, c=c), spd(r, 4, 3, c=c)], {"type": ty}))
        add(f"cbrt/{t}", cbrt, lambda r, g=g: ([g(r, 4, 5)], {}))
        add(f"solve_cubic/{t}/3", solve_cubic, lambda r, g=g: ([g(r, 6), g(r, 6), g(r, 6)], {}))
        add(f"solve_cubic/{t}/4", solve_cubic, lambda r, g=g: ([g(r, 6) + 3, g(r, 6), g(r, 6), g(r, 6)], {"all": False}))
        add(f"solve/{t}/v", solve, lambda r, g=g: ([g(r, 5, 3, 3), g(r, 5, 3)], {}))
        add(f"solve/{t}/m", solve, lambda r, g=g: ([g(r, 5, 3, 3), g(r, 5, 3, 2)], {}))
        add(f"lqpqm2/{t}", lqpqm2, lambda r, g=g, c=c: ([spd(r, 5, 3, c=c), g(r, 5, 3), np.abs(real(r, 5))], {"max_iter": 50}))
        add(f"lqpqm2/{t}/singular", lqpqm2, lambda r, g=g, c=c: (
            [spd(r, 5, 2, c=c), g(r, 5, 2) * np.array([0, 1, 0, 1, 1])[:, None], np.abs(real(r, 5)) * 0.1],
            {"max_iter": 50, "singular_fn": None}))
        add(f"prox.l1/{t}", prox.l1, lambda r, g=g: ([g(r, 3, 4, 5)], {"step_size": 0.7}))
        add(f"prox.l21/{t}", prox.l21, lambda r, g=g: ([g(r, 3, 4, 5)], {"step_size": 1.1}))
        add(f"prox.l21/{t}/axis", prox.l21, lambda r, g=g: ([g(r, 3, 4, 5)], {"step_size": 1.1, "axis1": 2, "axis2": 1}))
        add(f"prox.neg_logdet/{t}", prox.neg_logdet, lambda r, g=g: ([g(r, 4, 3, 3)], {"step_size": 0.5}))
        add(f"to_psd/{t}", special.to_psd, lambda r, g=g: ([g(r, 2, 3, 3)], {}))
        add(f"to_psd/{t}/none", special.to_psd, lambda r, g=g: ([g(r, 2, 3, 3)], {"flooring_fn": None}))
        add(f"pb/filter/{t}", algorithm.projection_back, lambda r, g=g: ([g(r, 4, 3, 3)], {"reference_id": 1}))
    add("solve_equation", solve_equation, lambda r: ([np.abs(real(r, 5, 3)) + 0.1, cplx(r, 5, 3), np.abs(real(r, 5))], {"max_iter": 50}))
    add("solve_equation/raw", solve_equation, lambda r: (
        [np.abs(real(r, 5, 3)) + 0.1, cplx(r, 5, 3), np.abs(real(r, 5))], {"max_iter": 80, "normalization": False}))
    add("prox.neg_log", prox.neg_log, lambda r: ([np.abs(real(r, 3, 4))], {"step_size": 0.5}))
    for ax in (None, 0, -1, (0, 2)):
        add(f"softmax/{ax}", special.softmax, lambda r, ax=ax: ([real(r, 3, 4, 5)], {"axis": ax}))
        add(f"logsumexp/{ax}", special.logsumexp, lambda r, ax=ax: ([real(r, 3, 4, 5)], {"axis": ax}))
    add("logsumexp/keep", special.logsumexp, lambda r: ([real(r, 3, 4, 5)], {"axis": 1, "keepdims": True}))
    add("max_flooring", max_flooring, lambda r: ([real(r, 3, 4)], {"eps": 0.3}))
    add("add_flooring", add_flooring, lambda r: ([real(r, 3, 4)], {"eps": 0.3}))
    add("identity", identity, lambda r: ([real(r, 3, 4)], {}))
    for nm, f in (("whiten", transform.whiten), ("pca", transform.pca)):
        add(f"{nm}/2", f, lambda r: ([real(r, 3, 40)], {}))
        add(f"{nm}/3c", f, lambda r: ([cplx(r, 3, 4, 20)], {}))
        add(f"{nm}/3r", f, lambda r: ([real(r, 4, 3, 20)], {}))
        add(f"{nm}/4", f, lambda r: ([cplx(r, 2, 3, 4, 20)], {}))
    add("pca/3c/desc", transform.pca, lambda r: ([cplx(r, 3, 4, 20)], {"ascend": False}))
    add("pb/filter/all", algorithm.projection_back, lambda r: ([cplx(r, 4, 3, 3)], {"reference_id": None}))
    for ref in (0, -1, None):
        add(f"pb/data/{ref}", algorithm.projection_back, lambda r, ref=ref: ([cplx(r, 3, 4, 20), cplx(r, 3, 4, 20)], {"reference_id": ref}))
        add(f"mdp/{ref}", algorithm.minimal_distortion_principle,
            lambda r, ref=ref: ([cplx(r, 3, 4, 20), cplx(r, 3, 4, 20)], {"reference_id": ref}))
    sel = combination_pair_selector
    for ow in (True, False):
        o = "ow" if ow else "copy"
        w = (0,) if ow else ()
        add(f"ip1/{o}", usm.update_by_ip1, lambda r, ow=ow: ([np.eye(3) + 0.3 * cplx(r, 4, 3, 3), spd(r, 4, 3, 3)], {"overwrite": ow}), w)
        add(f"ip2/{o}", usm.update_by_ip2, lambda r, ow=ow: ([np.eye(3) + 0.3 * cplx(r, 4, 3, 3), spd(r, 4, 3, 3)], {"overwrite": ow}), w)
        add(f"vcd/{o}", usm.update_by_block_decomposition_vcd, lambda r, ow=ow: (
            [np.eye(2) + 0.3 * cplx(r, 2, 3, 2, 2), vcd_cov(r)], {"overwrite": ow}), w)
        add(f"corr_perm/{o}", lambda a, b, c, **k: flat(correlation_based_permutation_solver(a, b, c, **k)), lambda r, ow=ow: (
            [cplx(r, 5, 3, 12), cplx(r, 5, 3, 3), real(r, 5, 3)], {"overwrite": ow}), (0, 1, 2) if ow else ())
        add(f"score_perm/{o}", lambda a, b, c, **k: flat(score_based_permutation_solver(a, b, c, **k)), lambda r, ow=ow: (
            [np.abs(real(r, 9, 3, 12)), cplx(r, 9, 3, 3), real(r, 9, 3, 2, 2)], {"overwrite": ow, "global_iter": 2}), (0, 1, 2) if ow else ())
    add("iss1", usm.update_by_iss1, lambda r: ([cplx(r, 3, 4, 20), np.abs(real(r, 3, 4, 20)) + 0.1], {}))
    add("iss2", usm.update_by_iss2, lambda r: ([cplx(r, 4, 4, 20), np.abs(real(r, 4, 4, 20)) + 0.1], {}))
    add("iss2/comb", usm.update_by_iss2, lambda r: ([cplx(r, 3, 4, 20), np.abs(real(r, 3, 4, 20)) + 0.1], {"pair_selector": sel}))
    add("ipa", usm.update_by_ipa, lambda r: ([cplx(r, 3, 4, 20), np.abs(real(r, 3, 4, 20)) + 0.1], {"max_iter": 50}))
    add("ipa/nonorm", usm.update_by_ipa, lambda r: ([cplx(r, 3, 4, 20), np.abs(real(r, 3, 4, 20)) + 0.1], {"max_iter": 50, "normalization": False}))
    add("ip2_one_pair", usm.update_by_ip2_one_pair, lambda r: ([np.eye(3) + 0.3 * cplx(r, 4, 3, 3), spd(r, 4, 2, 3)], {"pair": (2, 0)}))
    return T


def flat(out):
    a = [out[0]]
    rest = out[1]
    return tuple(a + (list(rest) if isinstance(rest, (tuple, list)) else [rest]))


def vcd_cov(rng):
    """(blocks, nbr, nbr, src, ch, ch) covariances of stacked neighbours: Hermitian as a whole."""
    B, I, N, C = 2, 3, 2, 2
    Z = cplx(rng, B, N, I * C, 40)
    R = Z @ Z.conj().swapaxes(-1, -2) / 40
    R = R.reshape(B, N, I, C, I, C).transpose(0, 2, 4, 1, 3, 5)
    return R


def results(out):
    return [np.asarray(a) for a in out] if isinstance(out, (tuple, list)) else [np.asarray(out)]

"""Group action on (input, initial state) of every method, and the observed effect."""
import numpy as np

from catalog import entries

# ------------------------------------------------------------------ families
NATURAL = ("NaturalGrad",)


def family(e):
    n = e.cls.__name__
    if "ICA" in n and "FDICA" not in n:
        return "ica"
    if n in ("FastIVA", "FasterIVA"):
        return "fastiva"
    if "ILRMA" in n:
        return "ilrma"
    if n == "GaussMNMF":
        return "mnmf"
    if n == "FastGaussMNMF":
        return "fastmnmf"
    if "IPSDTA" in n:
        return "ipsdta"
    if n == "CACGMM":
        return "cacgmm"
    if "PDS" in n or "ADMM" in n or "HVA" in n:
        return "prox"
    return "w"  # fdica / iva with a plain demixing filter


def rand_unitary(rng, n):
    z = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))
    q, _ = np.linalg.qr(z)
    return q


class G:
    """A group element: frame perm, bin perm, sensor matrix per bin, phase field, conj."""

    def __init__(self, shape, ft=None, fb=None, A=None, phase=None, conj=False):
        C, F, T = shape
        self.shape = shape
        self.ft = np.arange(T) if ft is None else np.asarray(ft)
        self.fb = np.arange(F) if fb is None else np.asarray(fb)
        self.A = np.tile(np.eye(C, dtype=complex), (F, 1, 1)) if A is None else A
        self.phase = np.ones((F, T), complex) if phase is None else phase
        self.conj = conj

    # order: sensor matrix, phase, then permutations, then conjugation
    def x(self, x):
        y = np.einsum("fcd,dft->cft", self.A, x) * self.phase
        y = y[:, self.fb][:, :, self.ft]
        return y.conj() if self.conj else y

    def y(self, y):  # separated signal
        y = (y * self.phase)[:, self.fb][:, :, self.ft]
        return y.conj() if self.conj else y

    def ych(self, y):
        return self.y(y)

    def W(self, W):
        W = (W @ np.linalg.inv(self.A))[self.fb]
        return W.conj() if self.conj else W

    def H(self, H):  # (n_src, n_bins, c, c)
        H = self.A @ H @ self.A.conj().transpose(0, 2, 1)
        H = H[:, self.fb]
        return H.conj() if self.conj else H

    def basis(self, T, part):
        return T[self.fb] if part else T[:, self.fb]

    def act(self, V):
        return V[..., self.ft]


def base_state(e, x, seed):
    """Explicit initial state for the entry (kwargs of __call__)."""
    C, F, T = x.shape
    rng = np.random.default_rng(7000 + seed)
    fam = family(e)
    st = {}
    N = e.kwargs.get("n_sources") or C
    if fam in ("w", "ilrma", "ipsdta", "prox"):
        W = np.eye(C) + 0.3 * (rng.standard_normal((F, C, C)) + 1j * rng.standard_normal((F, C, C)))
        st["demix_filter"] = W
    if fam == "fastiva":
        st["demix_filter"] = np.stack([rand_unitary(rng, C) for _ in range(F)])
    if fam in ("ilrma", "mnmf", "fastmnmf"):
        K = e.kwargs["n_basis"]
        if e.kwargs.get("partitioning"):
            st["basis"] = rng.random((F, K)) + 0.1
            st["activation"] = rng.random((K, T)) + 0.1
            Z = rng.random((N, K)) + 0.1
            st["latent"] = Z / Z.sum(axis=0)
        else:
            st["basis"] = rng.random((N, F, K)) + 0.1
            st["activation"] = rng.random((N, K, T)) + 0.1
    if fam == "mnmf":
        B = rng.standard_normal((N, F, C, C)) + 1j * rng.standard_normal((N, F, C, C))
        H = B @ B.conj().transpose(0, 1, 3, 2) + np.eye(C)
        st["spatial"] = H / np.trace(H, axis1=-2, axis2=-1).real[..., None, None]
    if fam == "fastmnmf":
        st["diagonalizer"] = np.eye(C) + 0.3 * (
            rng.standard_normal((F, C, C)) + 1j * rng.standard_normal((F, C, C))
        )
        st["spatial"] = rng.random((F, N, C)) + 0.1
    return st


def act_state(e, g, st):
    part = bool(e.kwargs.get("partitioning"))
    out = {}
    fam = family(e)
    for k, v in st.items():
        if k == "demix_filter":
            out[k] = g.W(v) if fam != "fastiva" else (v[g.fb].conj() if g.conj else v[g.fb])
        elif k == "diagonalizer":
            out[k] = g.W(v)
        elif k == "basis":
            out[k] = g.basis(v, part)
        elif k == "activation":
            out[k] = g.act(v)
        elif k == "spatial":
            out[k] = g.H(v) if fam == "mnmf" else v[g.fb]
        else:
            out[k] = v
    return out

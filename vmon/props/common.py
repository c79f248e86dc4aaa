"""Shared pieces of the property modules."""
from __future__ import annotations
import numpy as np
from .. import gen, oracle
from ..rt import CaseAbort, Malformed  # noqa: F401

METHODS = ("Neto", "random")


def seeded(case, ctx, *extra):
    return gen.rng_of(ctx.seed, *[case[k] for k in sorted(case) if k != "note"], *extra)


def rand_presentation(R, t, rng, tr=None, big=0):
    """big=n: one in n has a very oblique basis, one in n translations many cells away"""
    big = rng.integers(big) if big else -1
    if big == 0:
        P = gen.unimod(rng, 1, big=int(rng.integers(5, 21)))
        return gen.present(R, t, rng, tr=tr, P=P, shift=bool(rng.integers(2)), perm=bool(rng.integers(2)))
    if big == 1:
        return gen.present(R, t, rng, tr=tr, shift=bool(rng.integers(2)), perm=bool(rng.integers(2)), latt=int(rng.choice([40, 300])))
    return gen.present(R, t, rng, tr=tr, basis=int(rng.choice([0, 0, 1, 3])), shift=[False, True, "rat"][rng.integers(3)],
                       perm=bool(rng.integers(2)), latt=int(rng.choice([0, 0, 1, 3])))


def dress(R, t, k, rng, tr=None):
    """Vary the array types of a request without changing its meaning."""
    c = rng.integers(6)
    if c == 0:
        R = R.astype(np.int32)
    elif c == 1:
        R, t = np.asfortranarray(R), np.asfortranarray(t)
    elif c == 2:
        R, t = np.ascontiguousarray(R.transpose(2, 1, 0)).transpose(2, 1, 0), t[::-1][::-1]
    if tr is not None:
        tr = tr.astype([np.int32, bool, tr.dtype][rng.integers(3)])   # spglib hands out booleans
    if rng.integers(4) == 0 and np.abs(k - np.rint(k)).max() == 0:
        k = k.astype(int)
    elif rng.integers(4) == 0:
        k = [float(x) for x in k]
    return (R, t, k) if tr is None else (R, t, k, tr)


def group_kw(rng, n):
    """non-default but harmless tolerances and trial numbers, sometimes"""
    kw = {}
    if rng.integers(4) == 0:
        kw["max_num_random_generations"] = int(rng.choice([4, 6, 10]))
    if rng.integers(6) == 0:
        kw["rtol"] = float(rng.choice([1e-5, 1e-6, 1e-4]))
    if rng.integers(6) == 0:
        kw["atol"] = float(rng.choice([1e-8, 1e-7, 1e-9]))
    return kw


def pgroup(h, rng, conv=False, steps=(0, 0, 1, 2, 4), perm=True, big=False):
    """a crystallographic point group in a random lattice basis and order"""
    R = gen.pointgroup_conv(h) if conv else gen.pointgroup(h)
    s = int(rng.choice(steps))
    if s:
        P = (gen.unimod(rng, s) if not big or rng.integers(12) else gen.unimod(rng, 1, big=int(rng.integers(5, 21)))).astype(float)
        R, _ = gen.conj(P, R, np.zeros((len(R), 3)))
    if perm and rng.integers(4):
        R = R[rng.permutation(len(R))]
    return np.ascontiguousarray(R)


def algebra(h, rng, flavour, conv=False):
    """(rotations, table, factor system) of the point group (or a little co-group) of Hall setting h.

    flavour: ordinary / spinor / small (little co-group at a random k) / twisted (any of them times a coboundary)"""
    if flavour == "small":
        R, t, _, _ = rand_presentation(*gen.prim(h), rng)
        for _ in range(6):
            k = gen.kpoint(R, rng, ["special", "special2", "half", "mixed"][rng.integers(4)])
            g = oracle.little(R, k)
            if g is not None and len(g) > 1:
                break
        if g is None:
            k, g = np.zeros(3), np.arange(len(R))
        R, t = R[g], t[g]
        T = oracle.table(R)
        om, _ = oracle.lattice_phase(R, t, k, T)
        return R, T, om
    R = pgroup(h, rng, conv)
    T = oracle.table(R)
    n = len(R)
    om = np.ones((n, n), complex)
    if flavour in ("spinor", "twisted"):
        if flavour == "spinor" or rng.integers(2):
            om = spin_factor(R, T, rng)
        if flavour == "twisted":
            c = np.exp(2j * np.pi * rng.random(n))
            c[oracle.identity_index(R)[0]] = 1
            om = om * c[:, None] * c[None, :] / c[T]
    return R, T, om


def spin_factor(R, T, rng):
    """own spin factor system with random sign choices"""
    L = gen.metric_lattice(R, rng, "rand")
    U = np.array([su2(c) for c in oracle.cart(L, R)])
    U = U * rng.choice([-1, 1], len(R))[:, None, None]
    U[oracle.identity_index(R)] = np.eye(2)   # normalised factor system
    V = np.matmul(U[:, None], U[None])
    return np.sign(np.einsum("ijab,ijab->ij", V, U[T].conj()).real).astype(complex)


def su2(c):
    """SU(2) matrix (either sign) covering the proper part of an orthogonal matrix"""
    c = c * np.sign(np.linalg.det(c))
    q = np.zeros(4)
    K = np.zeros((4, 4))
    # quaternion from the largest eigenvector of the standard symmetric matrix
    K[0, 0] = np.trace(c)
    K[0, 1:] = K[1:, 0] = [c[2, 1] - c[1, 2], c[0, 2] - c[2, 0], c[1, 0] - c[0, 1]]
    K[1:, 1:] = c + c.T - np.trace(c) * np.eye(3)
    q = np.linalg.eigh(K)[1][:, -1]
    return q[0] * np.eye(2) - 1j * np.einsum("a,aij->ij", q[1:], oracle.SIG)


def orbit_rep(R, rng, vec=False):
    """permutation representation on an orbit of a point (special or general), optionally times the fractional vector rep in a
    Cartesian basis; unitary"""
    L = gen.metric_lattice(R, rng, "rand")
    C = oracle.cart(L, R)
    kind = rng.integers(3)
    x = rng.normal(size=3)
    if kind:
        i = rng.integers(len(R))
        x = sum((np.linalg.matrix_power(C[i], m) @ x for m in range(12)), np.zeros(3)) / 12
    if kind == 2:
        x = np.zeros(3)
    pts = []
    for c in C:
        y = c @ x
        if not any(np.abs(y - p).max() < 1e-6 for p in pts):
            pts.append(y)
    pts = np.array(pts)[rng.permutation(len(pts))]
    m = len(pts)
    P = np.zeros((len(R), m, m))
    for g, c in enumerate(C):
        y = pts @ c.T
        d = np.abs(y[:, None] - pts[None]).max(axis=2)
        P[g, d.argmin(axis=1), np.arange(m)] = 1
    if not vec:
        return P
    return np.einsum("kab,kcd->kacbd", P, C).reshape(len(R), 3 * m, 3 * m)


def regauge(M, rng, kind):
    d = M.shape[1]
    if kind == "none":
        return M
    if kind == "perm":
        p = rng.permutation(d)
        return M[:, p][:, :, p]
    if kind == "orth":
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        return q.T @ M @ q
    u = gen.haar(d, rng)
    return u.conj().T @ M @ u

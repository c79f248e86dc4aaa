"""Reference mathematics, written from the documented conventions only."""
from __future__ import annotations
import numpy as np
from .rt import Malformed

I3 = np.eye(3, dtype=int)


# ----------------------------------------------------------------- results
def as_array(x, what, shape=None, kind=None):
    try:
        a = np.asarray(x)
    except Exception as e:  # noqa: BLE001
        raise Malformed(f"{what} is not an array ({e})")
    if a.dtype == object:
        raise Malformed(f"{what} is not a numeric array")
    if shape is not None and a.shape != tuple(shape):
        raise Malformed(f"{what} has shape {a.shape}, expected {tuple(shape)}")
    if kind == "int":
        if not np.all(np.equal(np.mod(a, 1), 0)):
            raise Malformed(f"{what} is not integer")
        a = a.astype(int)
    elif a.dtype.kind not in "biufc":
        raise Malformed(f"{what} has dtype {a.dtype}")
    elif a.dtype.kind in "fc" and not np.all(np.isfinite(a)):
        raise Malformed(f"{what} contains NaN or infinite values")
    return a


def as_reps(irreps, order, what="irreps"):
    if not isinstance(irreps, (list, tuple)):
        raise Malformed(f"{what} is {type(irreps).__name__}, expected a list")
    out = []
    for a, m in enumerate(irreps):
        m = as_array(m, f"{what}[{a}]")
        if m.ndim != 3 or m.shape[0] != order or m.shape[1] != m.shape[2] or m.shape[1] < 1:
            raise Malformed(f"{what}[{a}] has shape {m.shape} for {order} operations")
        out.append(m)
    return out


def as_tuple(x, n, what):
    if not isinstance(x, (tuple, list)) or len(x) != n:
        raise Malformed(f"{what}: expected {n} values, got {type(x).__name__} of {len(x) if hasattr(x, '__len__') else '?'}")
    return x


# ----------------------------------------------------------------- groups
_W = 201 ** np.arange(9, dtype=object)


def codes(rots, tr=None):
    """Unique Python integers for integer matrices (+ time reversal)."""
    r = np.rint(np.asarray(rots)).astype(np.int64).reshape(len(rots), 9)
    c = ((r + 100).astype(object) * _W[None, :]).sum(axis=1) * 2
    if tr is not None:
        c = c + np.asarray(tr).astype(int).astype(object)
    return c


def _codes_fast(r, tr):
    r = np.asarray(r)
    flat = r.reshape(-1, 9)
    # mixing constants; exact collisions are excluded afterwards by comparison
    w = np.array([1, 1009, 1000003, 10000019, 100000007, 1000000007, 998244353, 1299709, 15485863], dtype=np.int64)
    return (flat @ w) * 2 + tr


def table(rots, tr=None):
    """table[i, j] = k with g_i g_j = g_k; None when not closed / not unique."""
    r = np.rint(np.asarray(rots)).astype(np.int64)
    n = len(r)
    t = np.zeros(n, np.int64) if tr is None else np.asarray(tr).astype(np.int64)
    c = _codes_fast(r, t)
    o = np.argsort(c, kind="stable")
    cs = c[o]
    if len(np.unique(cs)) != n:
        return None
    P = np.einsum("iab,jbc->ijac", r, r)
    tt = t[:, None] ^ t[None, :]
    pc = _codes_fast(P.reshape(n * n, 3, 3), tt.reshape(n * n))
    pos = np.searchsorted(cs, pc)
    pos = np.minimum(pos, n - 1)
    k = o[pos]
    if not (np.array_equal(r[k], P.reshape(n * n, 3, 3)) and np.array_equal(t[k], tt.reshape(n * n))):
        return None
    return k.reshape(n, n)


def composed(rots, trans, i=None):
    """translations of g_i g_j: t_i + R_i t_j  -> (n, n, 3)"""
    r, t = np.asarray(rots, float), np.asarray(trans, float)
    return t[:, None, :] + np.einsum("iab,jb->ija", r, t)


def lattice_phase(rots, trans, k, T):
    """exp(-2 pi i k.(t_i + R_i t_j - t_ij)); also the deviation of that vector from a lattice vector."""
    d = composed(rots, trans) - np.asarray(trans, float)[T]
    dev = np.abs(d - np.rint(d)).max()
    return np.exp(-2j * np.pi * (d @ np.asarray(k, float))), dev


def identity_index(rots, tr=None):
    r = np.asarray(rots)
    ok = (np.rint(r).astype(int) == I3).all(axis=(1, 2))
    if tr is not None:
        ok &= np.asarray(tr) == 0
    return np.where(ok)[0]


def little(rots, k, tr=None, lo=1e-10, hi=1e-6, taus=None):
    """indices keeping k (reversing for anti-unitary); None when some operation is too close to call.

    taus: extra lattice translations (fractional) of the primitive lattice, besides Z^3."""
    r = np.asarray(rots, float)
    k = np.asarray(k, float)
    s = np.ones(len(r)) if tr is None else np.where(np.asarray(tr) != 0, -1.0, 1.0)
    g = s[:, None] * np.einsum("iba,b->ia", r, k) - k[None, :]
    if taus is not None and len(taus):
        B = np.vstack([np.eye(3), np.asarray(taus, float)])
        g = g @ B.T
    d = np.abs(g - np.rint(g)).max(axis=1)
    if np.any((d > lo) & (d < hi)):
        return None
    return np.where(d <= lo)[0]


# ----------------------------------------------------------------- representations
def law_defect(M, T, om, conj=None):
    """max | D(i) D(j)^(*) - om[i, j] D(T[i, j]) |"""
    n, d = M.shape[0], M.shape[1]
    worst = 0.0
    step = max(1, int(4e6 // (n * d * d * 16)) or 1)
    for s in range(0, n, step):
        e = min(n, s + step)
        A = M[s:e]
        if conj is None:
            P = np.matmul(A[:, None], M[None])
        else:
            c = np.asarray(conj[s:e], bool)
            P = np.matmul(A[:, None], np.where(c[:, None, None, None], M.conj()[None], M[None]))
        worst = max(worst, np.abs(P - om[s:e, :, None, None] * M[T[s:e]]).max())
    return worst


def unitary_defect(M):
    return np.abs(M @ M.conj().transpose(0, 2, 1) - np.eye(M.shape[1])).max()


def chars(reps):
    return np.array([np.einsum("kii->k", np.asarray(m)) for m in reps])


def gram(reps):
    """(1/|G|) sum conj(chi_a) chi_b"""
    C = chars(reps)
    return C.conj() @ C.T / C.shape[1]


def complete_msgs(reps, order, what="", tol=1e-5):
    """irreducible, inequivalent, sum d^2 == order (order of the co-group), all for complex representations."""
    out = []
    if not reps:
        return [f"{what}empty list of representations"]
    d2 = sum(m.shape[1] ** 2 for m in reps)
    if d2 != order:
        out.append(f"{what}sum of squared dimensions {d2} != order {order} (dims {[m.shape[1] for m in reps]})")
    g = gram(reps)
    dg = np.diag(g)
    if np.abs(dg - 1).max() > tol:
        out.append(f"{what}reducible member: <chi,chi>={np.round(dg.real, 4).tolist()}")
    if np.abs(g - np.diag(dg)).max() > tol:
        out.append(f"{what}equivalent members: max off-diagonal <chi_a,chi_b>={np.abs(g - np.diag(dg)).max():.4g}")
    return out


def same_charset(A, B, tol=1e-5):
    """Are two lists of characters (n_irreps, n) the same set?"""
    A, B = np.atleast_2d(A), np.atleast_2d(B)
    if A.shape != B.shape:
        return False
    left = list(range(len(B)))
    for a in A:
        for j in left:
            if np.abs(a - B[j]).max() < tol:
                left.remove(j)
                break
        else:
            return False
    return True


def small_rep_msgs(reps, rots, trans, k, z=None, tr=None, tol=1e-6, T=None, what=""):
    """law + unitarity + identity for representations of listed operations with distinct rotation parts."""
    out = []
    T = table(rots, tr) if T is None else T
    om, dev = lattice_phase(rots, trans, k, T)
    if dev > 1e-4:
        return [f"{what}operations do not form a space group (deviation {dev:.2g})"]
    if z is not None:
        om = om * z
    e = identity_index(rots, tr)
    for a, m in enumerate(reps):
        u = unitary_defect(m)
        if u > tol:
            out.append(f"{what}irrep {a} (dim {m.shape[1]}) not unitary: {u:.3g}")
        w = law_defect(m, T, om, tr)
        if w > tol:
            out.append(f"{what}irrep {a} (dim {m.shape[1]}) violates the product law by {w:.3g}")
        if len(e) == 1 and np.abs(m[e[0]] - np.exp(-2j * np.pi * (k @ trans[e[0]])) * np.eye(m.shape[1])).max() > tol:
            out.append(f"{what}irrep {a}: identity not represented by the identity matrix")
    return out


def corep_complete_msgs(reps, tr, order_unitary, tol=1e-5, what=""):
    """co-representations: irreducible, inequivalent, exhaustive.  order_unitary: order of unitary little co-group."""
    out = []
    if not reps:
        return [f"{what}empty list"]
    H = np.asarray(tr) == 0
    C = chars(reps)[:, H]
    g = C.conj() @ C.T / H.sum()
    dg = np.diag(g).real
    anti = (~H).any()
    allowed = (1, 2, 4) if anti else (1,)
    for a, x in enumerate(dg):
        if min(abs(x - c) for c in allowed) > tol:
            out.append(f"{what}corep {a}: norm {x:.4f} of the unitary part not in {allowed}")
    if np.abs(g - np.diag(np.diag(g))).max() > tol:
        out.append(f"{what}equivalent co-representations")
    s = sum(m.shape[1] ** 2 / x for m, x in zip(reps, dg))
    if abs(s - order_unitary) > 1e-4:
        out.append(f"{what}not exhaustive: sum d^2/<chi,chi> = {s:.4f} != {order_unitary}")
    return out


def corep_irreducible(m, tr, om, T, rng):
    """Commutant's Hermitian part must be the scalars (averaging a random Hermitian matrix)."""
    d = m.shape[1]
    A = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    A = A + A.conj().T
    c = np.asarray(tr) != 0
    S = np.zeros((d, d), complex)
    for g in range(len(m)):
        S += m[g] @ (A.conj() if c[g] else A) @ m[g].conj().T
    S /= len(m)
    return np.abs(S - np.trace(S) / d * np.eye(d)).max() < 1e-6


def reps_equivalent(A, B, tol=1e-6):
    """chi equality"""
    return A.shape == B.shape and np.abs(np.einsum("kii->k", A) - np.einsum("kii->k", B)).max() < tol


# ----------------------------------------------------------------- spin
SIG = np.array([[[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]], dtype=complex)
THETA = np.array([[0, -1], [1, 0]], dtype=complex)   # -i sigma_y


def adjoint(U):
    return np.array([[np.trace(SIG[a] @ U @ SIG[b] @ U.conj().T).real / 2 for b in range(3)] for a in range(3)])


def cart(lattice, rots):
    L = np.asarray(lattice, float).T
    Li = np.linalg.inv(L)
    return np.array([L @ np.asarray(r, float) @ Li for r in rots])


def spin_msgs(lattice, rots, z, U, tr=None, noise=0.0, T=None):
    out = []
    n = len(rots)
    tol = 1e-6 + 200 * noise
    z = as_array(z, "factor system", (n, n))
    U = as_array(U, "unitary rotations", (n, 2, 2))
    if np.abs(np.abs(z.real) - 1).max() > 1e-12 or np.abs(np.imag(z)).max() > 1e-12:
        out.append(f"factor system has entries other than +1/-1, e.g. {z.ravel()[np.argmax(np.abs(np.abs(z.real) - 1))]}")
    c = cart(lattice, rots)
    det = np.sign(np.linalg.det(c))
    t = np.zeros(n, int) if tr is None else np.asarray(tr).astype(int)
    for i in range(n):
        u = U[i] @ THETA.conj().T if t[i] else U[i]   # strip time reversal
        if np.abs(u @ u.conj().T - np.eye(2)).max() > tol or abs(np.linalg.det(u) - 1) > tol:
            out.append(f"spin rotation {i} not in SU(2)")
            break
        if np.abs(adjoint(u) - det[i] * c[i]).max() > tol:
            out.append(f"spin rotation {i} does not cover the rotation: deviation {np.abs(adjoint(u) - det[i] * c[i]).max():.3g}")
            break
        if np.abs(np.abs(np.rint(rots[i])) - I3).max() == 0 and np.abs(det[i] * np.rint(rots[i]) - I3).max() == 0:
            if np.abs(u - np.eye(2)).max() > tol:
                out.append(f"identity/inversion {i} not assigned the identity matrix")
                break
    # one spin rotation per proper part (Pauli gauge), the same with and without time reversal
    first = {}
    for i in range(n):
        u = U[i] @ THETA.conj().T if t[i] else U[i]
        j = first.setdefault((det[i] * np.rint(rots[i])).astype(int).tobytes(), (i, u))
        if np.abs(j[1] - u).max() > tol:
            out.append(f"operations {j[0]} and {i} share their proper rotation but are assigned different spin rotations"
                       + (" (-i sigma_y of time reversal taken off)" if t[i] or t[j[0]] else ""))
            break
    T = table(rots, t) if T is None else T
    V = np.matmul(U[:, None], np.where((t != 0)[:, None, None, None], U.conj()[None], U[None]))
    dz = np.abs(V - z[:, :, None, None] * U[T]).max()
    if dz > tol:
        out.append(f"product of spin rotations differs from sign x spin rotation by {dz:.3g}")
    # cocycle (trivially implied, checked independently on signs): z(i,jk) z(j,k) = z(ij,k) z(i,j)
    lhs = z[:, T] * z[None, :, :]
    rhs = z[T[:, :, None], np.arange(n)[None, None, :]] * z[:, :, None]
    if np.abs(lhs - rhs).max() > 1e-9:
        out.append("factor system violates the cocycle condition")
    return out


# ----------------------------------------------------------------- conventional cells
def conv_table(rots, trans, tr=None, tol=1e-4):
    """table and integer lattice vectors for operations listed modulo lattice translations (several per rotation)."""
    r = np.rint(np.asarray(rots)).astype(np.int64)
    t = np.asarray(trans, float)
    n = len(r)
    th = np.zeros(n, np.int64) if tr is None else np.asarray(tr).astype(np.int64)
    c = _codes_fast(r, th)
    u, inv, cnt = np.unique(c, return_inverse=True, return_counts=True)
    if len(set(cnt.tolist())) != 1:
        return None, None
    m = cnt[0]
    members = np.argsort(inv, kind="stable").reshape(len(u), m)
    P = np.einsum("iab,jbc->ijac", r, r).reshape(n * n, 3, 3)
    tt = (th[:, None] ^ th[None, :]).reshape(n * n)
    pc = _codes_fast(P, tt)
    pos = np.minimum(np.searchsorted(u, pc), len(u) - 1)
    cand = members[pos]                                   # (n*n, m)
    if not np.array_equal(r[cand[:, 0]], P) or not np.array_equal(th[cand[:, 0]], tt):
        return None, None
    t12 = composed(r, t).reshape(n * n, 1, 3)
    d = t12 - t[cand]
    dev = np.abs(d - np.rint(d)).max(axis=2)
    ok = dev < tol
    if not np.all(ok.sum(axis=1) == 1):
        return None, None
    best = ok.argmax(axis=1)
    T = cand[np.arange(n * n), best]
    L = np.rint(d[np.arange(n * n), best])
    return T.reshape(n, n), L.reshape(n, n, 3)


# ----------------------------------------------------------------- tensors
def sym_power_count(rp, rank):
    """dimension of invariants in the symmetric power (cycle-index recursion)."""
    n = len(rp)
    p = [None]
    m = rp.astype(complex)
    for _ in range(rank):
        p.append(np.einsum("kii->k", m))
        m = m @ rp
    h = [np.ones(n, complex)]
    for k in range(1, rank + 1):
        h.append(sum(h[k - i] * p[i] for i in range(1, k + 1)) / k)
    return int(np.rint(h[rank].sum().real / n))


def act_tensor(g, t):
    for ax in range(t.ndim):
        t = np.moveaxis(np.tensordot(g, t, axes=(1, ax)), 0, ax)
    return t


# ----------------------------------------------------------------- independent irreps
def regular(T, om):
    n = len(T)
    reg = np.zeros((n, n, n), complex)
    g, h = np.meshgrid(np.arange(n), np.arange(n), indexing="ij")
    reg[g, T, h] = om
    return reg


def irreps(T, om, rng):
    """All irreducible unitary (projective) representations for the table and factor system, in a random gauge.

    Own implementation: eigenspaces of a random Hermitian element of the commutant of the regular representation."""
    n = len(T)
    reg = regular(T, om)
    for _ in range(20):
        X = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
        X = X + X.conj().T
        # sum_g L_g X L_g^+ : L_g is monomial
        M = np.zeros((n, n), complex)
        for g in range(n):
            M[np.ix_(T[g], T[g])] += om[g][:, None] * X * om[g].conj()[None, :]
        w, V = np.linalg.eigh(M / n)
        cut = np.where(np.diff(w) > 1e-5 * max(1, np.abs(w).max()))[0] + 1
        out, C = [], []
        for idx in np.split(np.arange(n), cut):
            v = V[:, idx]
            D = np.einsum("li,klm,mj->kij", v.conj(), reg, v, optimize="greedy")
            c = np.einsum("kii->k", D)
            if abs((np.abs(c) ** 2).mean() - 1) > 1e-6:
                break
            if all(abs(np.vdot(c, d)) / n < 0.5 for d in C):
                out.append(D)
                C.append(c)
        else:
            if sum(D.shape[1] ** 2 for D in out) == n:
                return out
    raise RuntimeError("no irreps found")


def direct_sum(reps):
    d = sum(m.shape[1] for m in reps)
    out = np.zeros((len(reps[0]), d, d), complex)
    p = 0
    for m in reps:
        q = m.shape[1]
        out[:, p:p + q, p:p + q] = m
        p += q
    return out

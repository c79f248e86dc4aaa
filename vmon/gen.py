"""Workload generators (seeded): groups, presentations, wave vectors, lattices, crystals, magnetic groups."""
from __future__ import annotations
import itertools
from functools import lru_cache
import numpy as np
import spglib

I3 = np.eye(3, dtype=int)


@lru_cache(maxsize=64)
def _db(h):
    s = spglib.get_symmetry_from_database(h)
    return s["rotations"].astype(int), s["translations"].astype(float)


def db(h):
    r, t = _db(h)
    return r.copy(), t.copy()


def mdb(u):
    s = spglib.get_magnetic_symmetry_from_database(u)
    return s["rotations"].astype(int), s["translations"].astype(float), s["time_reversals"].astype(int)


def lattice_basis(cents):
    """Primitive basis (columns) of the lattice generated by Z^3 and the given translations; right-handed."""
    n = len(cents)
    pts = [np.array(p) + c for c in cents for p in itertools.product((-1, 0, 1), repeat=3)]
    pts = [p for p in pts if np.abs(p).sum() > 1e-6]
    pts.sort(key=lambda v: (round(float(v @ v), 8), tuple(np.round(-v, 8))))
    for a in itertools.combinations(pts[:40], 3):
        P = np.array(a).T
        d = np.linalg.det(P)
        if abs(abs(d) - 1 / n) < 1e-8:
            return P if d > 0 else -P
    raise RuntimeError("no primitive basis")


def conj(P, R, t):
    Pi = np.linalg.inv(P)
    return np.rint(np.einsum("ab,ibc,cd->iad", Pi, R, P)).astype(int), np.einsum("ab,ib->ia", Pi, t)


def dedup(R, t, tr=None):
    seen, keep = set(), []
    tr_ = np.zeros(len(R), int) if tr is None else tr
    for i in range(len(R)):
        k = (R[i].tobytes(), int(tr_[i]))
        if k not in seen:
            seen.add(k)
            keep.append(i)
    return keep


@lru_cache(maxsize=64)
def _prim(h):
    R, t = db(h)
    P = lattice_basis([x for r, x in zip(R, t) if (r == I3).all()])
    R, t = conj(P, R, t)
    keep = dedup(R, t)
    t = t[keep] % 1.0
    t[np.abs(t - 1) < 1e-9] = 0
    t[np.abs(t) < 1e-9] = 0
    return R[keep], t, P


def prim(h):
    """operations of the primitive cell (own reduction, independent of the code under test)"""
    R, t, P = _prim(h)
    return R.copy(), t.copy()


@lru_cache(maxsize=64)
def _mprim(u):
    R, t, tr = mdb(u)
    P = lattice_basis([x for r, x, y in zip(R, t, tr) if (r == I3).all() and y == 0])
    R, t = conj(P, R, t)
    keep = dedup(R, t, tr)
    t = t[keep] % 1.0
    t[np.abs(t - 1) < 1e-9] = 0
    t[np.abs(t) < 1e-9] = 0
    return R[keep], t, tr[keep]


def mprim(u):
    return tuple(x.copy() for x in _mprim(u))


def pointgroup(h):
    R, _ = prim(h)
    return R


def pointgroup_conv(h):
    R, t = db(h)
    return R[dedup(R, t)]


def unimod(rng, steps, big=1):
    P = np.eye(3, dtype=int)
    for _ in range(steps):
        i, j = rng.choice(3, 2, replace=False)
        E = np.eye(3, dtype=int)
        E[i, j] = rng.choice([-1, 1]) * big
        P = P @ E
    P = P[rng.permutation(3)] * rng.choice([-1, 1], 3)[:, None]
    return P


def present(R, t, rng, tr=None, basis=0, shift=False, perm=False, latt=0, P=None):
    """Another description of the same group: basis change, origin shift, order, translation representatives.

    Returns R, t, tr, info.  The identity keeps translation zero."""
    R, t = R.copy(), t.copy()
    tr = None if tr is None else tr.copy()
    info = dict(P=None, s=None, perm=np.arange(len(R)), latt=np.zeros((len(R), 3), int))
    if basis or P is not None:
        P = unimod(rng, basis) if P is None else P
        R, t = conj(P.astype(float), R, t)
        info["P"] = P
    if shift:
        s = rng.random(3) if shift is True else rng.integers(0, 8, 3) / 8
        t = t + s - np.einsum("iab,b->ia", R, s)
        info["s"] = s
    if latt:
        T = rng.integers(-latt, latt + 1, (len(R), 3))
        T[(R == I3).all(axis=(1, 2)) & ((tr == 0) if tr is not None else True)] = 0
        t = t + T
        info["latt"] = T
    if perm:
        p = rng.permutation(len(R))
        R, t, tr = R[p], t[p], (None if tr is None else tr[p])
        info["perm"] = p
    e = (R == I3).all(axis=(1, 2))
    if tr is not None:
        e &= tr == 0
    t[e] = 0.0
    return R, t, tr, info


K_KINDS = ["gamma", "half", "half", "third", "quarter", "sixth", "mixed", "line", "special", "special", "special2",
           "plane", "generic", "halfline"]


def _snap(k):
    for d in (1, 2, 3, 4, 6, 8, 12):
        x = np.rint(k * d) / d
        m = np.abs(x - k) < 1e-11
        k = np.where(m, x, k)
    return k


def kpoint(R, rng, kind=None, tr=None, far=True):
    """A wave vector of the given kind for the group R (rotations act on fractional coordinates)."""
    kind = kind or K_KINDS[rng.integers(len(K_KINDS))]
    n = len(R)
    s = np.ones(n) if tr is None else np.where(tr != 0, -1.0, 1.0)
    A = np.array([s[i] * R[i].T for i in range(n)])
    if kind == "gamma":
        k = np.zeros(3)
    elif kind == "half":
        k = rng.integers(0, 2, 3) / 2
    elif kind == "third":
        k = rng.integers(-1, 2, 3) / 3
    elif kind == "quarter":
        k = rng.integers(-2, 3, 3) / 4
    elif kind == "sixth":
        k = rng.integers(-3, 4, 3) / 6
    elif kind == "mixed":
        k = np.array([rng.integers(-4, 5) / rng.choice([2, 3, 4, 6]) for _ in range(3)])
    elif kind in ("line", "plane", "halfline"):
        # fixed space of one or two operations, plus half-integer offset for halfline
        g = A[rng.integers(n)]
        k = rng.normal(size=3)
        m = np.eye(3)
        acc, x = np.zeros(3), k.copy()
        for _ in range(12):
            acc += x
            x = g @ x
        k = acc / 12
        if kind == "halfline":
            k = k + rng.integers(0, 2, 3) / 2
    elif kind in ("special", "special2"):
        # points with g k - k = integer vector
        k = None
        for _ in range(12):
            gs = [A[i] for i in rng.integers(0, n, 1 if kind == "special" else 2)]
            B = np.vstack([g - np.eye(3) for g in gs])
            v = rng.integers(-1, 2, B.shape[0])
            x = np.linalg.pinv(B) @ v
            if np.abs(B @ x - v).max() < 1e-9 and np.abs(x).max() > 1e-9:
                k = x
                break
        if k is None:
            k = rng.integers(0, 2, 3) / 2
        elif rng.random() < 0.5:
            # add a generic part fixed by all chosen g
            _, S, Vt = np.linalg.svd(B)
            null = Vt[np.sum(S > 1e-9):]
            if len(null):
                k = k + null.T @ (rng.normal(size=len(null)) * 0.3)
    else:
        k = rng.normal(size=3) * 0.7
    k = _snap(np.asarray(k, float))
    if far and rng.random() < 0.3:
        k = k + rng.integers(-3, 4, 3) * (int(rng.choice([1, 1, 1, 1, 1, 1, 7, 97])) if far != "near" else 1)
    return k


def metric_lattice(R, rng, kind=None):
    """Row-wise lattice with metric invariant under R; kind: rotated / lower-triangular / scaled / left-handed."""
    kind = kind or ["rand", "rand", "std", "small", "large", "left"][rng.integers(6)]
    A = rng.normal(size=(3, 3))
    G = A @ A.T + 3 * np.eye(3)
    G = np.mean([r.T @ G @ r for r in np.asarray(R, float)], axis=0)
    L = np.linalg.cholesky(G)
    if kind == "std":
        return L
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if np.linalg.det(q) < 0:
        q[0] *= -1
    L = L @ q
    if kind == "small":
        L = L * 1e-2
    if kind == "large":
        L = L * 1e2
    if kind == "left":
        L = L * np.array([1, 1, -1.0])
    return L


def crystal(h, rng, norb=2, special=False, tol=1e-6):
    """atoms on norb general (or random special) orbits of the space group in the Hall setting h"""
    R, t = db(h)
    L = metric_lattice(R, rng, "rand") * 3.0
    pos, num = [], []
    for a in range(norb):
        for _ in range(30):
            x = rng.random(3)
            if special:
                if rng.random() < 0.5:
                    x = rng.integers(0, 8, 3) / 8
                else:
                    i = rng.integers(len(R))
                    y, acc, m = x.copy(), np.zeros(3), 0
                    for _ in range(12):   # centre of a cyclic orbit
                        acc += y
                        y = R[i] @ y + t[i]
                        m += 1
                    x = acc / m
            y = (np.einsum("iab,b->ia", R, x) + t) % 1.0
            orb = []
            for v in y:
                if all(np.abs((v - w) - np.rint(v - w)).max() > tol for w in orb):
                    orb.append(v)
            # reject orbits with too close atoms
            allp = np.array(pos + orb)
            d = allp[:, None] - np.array(orb)[None]
            d -= np.rint(d)
            dist = np.linalg.norm(d @ L, axis=2)
            dist[dist < 1e-9] = 9
            same = len(allp) - len(orb)
            clash = same and np.abs(d[:same]).max(axis=2).min() < 1e-6
            if dist.min() > 0.05 and not clash:
                break
        pos += orb
        num += [a + 1] * len(orb)
    return L, np.array(pos), np.array(num)


VARIANTS = ["std", "shift", "uni", "perm", "prim", "super", "uniprim"]


def recell(L, pos, num, P, extra=None):
    """same crystal in the cell with basis L' = P^T L (P integer, any determinant)."""
    P = np.asarray(P, int)
    n = round(abs(np.linalg.det(P)))
    Pi = np.linalg.inv(P)
    L2 = P.T @ L
    if n == 1:
        return L2, (pos @ Pi.T) % 1.0, num, (None if extra is None else extra)
    shifts = []
    m = int(np.abs(P).sum())
    for sh in itertools.product(range(-m, m + 1), repeat=3):
        y = (Pi @ np.array(sh)) % 1.0
        y[np.abs(y - 1) < 1e-9] = 0
        if all(np.abs((y - w) - np.rint(y - w)).max() > 1e-9 for w in shifts):
            shifts.append(y)
        if len(shifts) == n:
            break
    out = np.concatenate([(pos @ Pi.T + s) % 1.0 for s in shifts])
    num2 = np.concatenate([num] * n)
    return L2, out, num2, (None if extra is None else np.concatenate([extra] * n))


def variant(L, pos, num, v, rng, extra=None):
    """extra: per-atom data (moments); then cells stay right-handed, since spglib's magnetic search crashes on left-handed ones"""
    if v == "std":
        return L, pos, num, extra
    if v == "shift":
        return L, (pos + rng.random(3)) % 1.0, num, extra
    if v == "uni":
        P = unimod(rng, 2)
        if extra is not None and np.linalg.det(P) * np.linalg.det(L) < 0:
            P = -P
        return recell(L, (pos + rng.random(3)) % 1.0, num, P, extra)
    if v == "perm":
        P = np.eye(3, dtype=int)[rng.permutation(3)]
        if np.linalg.det(P) < 0:
            P = -P
        p = rng.permutation(len(pos))
        return recell(L, pos[p], num[p], P, None if extra is None else extra[p])
    if v == "super":
        return recell(L, pos, num, np.diag(rng.permutation([1, 1, 2])), extra)
    if v in ("prim", "uniprim"):
        c = spglib.find_primitive((L, pos, num))
        if c is None:
            return None
        L2, p2, n2 = c
        if v == "uniprim":
            L2, p2, n2, _ = recell(L2, p2, n2, unimod(rng, 2))
        return L2, p2, n2, None
    raise KeyError(v)


def haar(n, rng):
    q, r = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    return q * (np.diag(r) / np.abs(np.diag(r)))


PG_HALLS = [1, 2, 3, 18, 57, 108, 125, 227, 349, 353, 357, 366, 376, 388, 401, 430, 435, 438, 446, 458, 462, 468, 469,
            471, 477, 483, 481, 485, 489, 494, 503, 511, 517]


def rng_of(*key):
    """generator from integers/strings, independent of hash seeds"""
    import zlib
    return np.random.default_rng([zlib.crc32(repr(k).encode()) for k in key])

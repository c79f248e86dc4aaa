"""Finite groups that are no crystallographic point groups, as multiplication tables."""
from __future__ import annotations
import functools
import numpy as np


def close(gens, cap=200):
    """all products of permutations (tuples), as a list starting with the identity"""
    e = tuple(range(len(gens[0])))
    seen, todo = {e: None}, [e]
    while todo:
        new = []
        for a in todo:
            for g in gens:
                c = tuple(g[x] for x in a)
                if c not in seen:
                    seen[c] = None
                    new.append(c)
                    if len(seen) > cap:
                        raise ValueError("too large")
        todo = new
    return list(seen)


def _cyc(n, *cycles):
    p = list(range(n))
    for c in cycles:
        for a, b in zip(c, c[1:] + c[:1]):
            p[a] = b
    return tuple(p)


def _matperm(mats, q, d):
    """permutations of the non-zero vectors of GF(q)^d by matrices"""
    import itertools
    vs = [v for v in itertools.product(range(q), repeat=d) if any(v)]
    ix = {v: i for i, v in enumerate(vs)}
    return [tuple(ix[tuple(int(sum(m[i][j] * v[j] for j in range(d)) % q) for i in range(d))] for v in vs) for m in mats]


def _affine(p, a):
    return [tuple((x + 1) % p for x in range(p)), tuple((a * x) % p for x in range(p))]


def _abstract(n, mul, gens):
    """left-regular permutations of a group given by a multiplication on range(n)"""
    return [tuple(mul(g, x) for x in range(n)) for g in gens]


def _dic(m):
    """dicyclic of order 4m: element a^i x^j -> i + 2m j"""
    N = 2 * m

    def mul(u, v):
        i, j, k, l = u % N, u // N, v % N, v // N
        r = i + (k if j == 0 else -k)
        if j and l:
            r += m
        return r % N + N * ((j + l) % 2)
    return _abstract(4 * m, mul, [1, N])


def _heis(p):
    def mul(u, v):
        a, b, c = u % p, u // p % p, u // p // p
        x, y, z = v % p, v // p % p, v // p // p
        return (a + x) % p + p * ((b + y) % p) + p * p * ((c + z + a * y) % p)
    return _abstract(p ** 3, mul, [1, p])


def _semi(n, m, k):
    """Z_n x| Z_m with y x y^-1 = x^k"""
    def mul(u, v):
        i, j, a, b = u % n, u // n, v % n, v // n
        return (i + a * pow(k, j, n)) % n + n * ((j + b) % m)
    assert pow(k, m, n) == 1 % n
    return _abstract(n * m, mul, [1, n])


def _prod(a, b):
    n, m = len(a[0]), len(b[0])
    return [g + tuple(range(n, n + m)) for g in a] + [tuple(range(n)) + tuple(x + n for x in g) for g in b]


def C(n):
    return [_cyc(n, list(range(n)))] if n > 1 else [(0,)]


def D(n):
    return [_cyc(n, list(range(n))), tuple((-x) % n for x in range(n))]


LIB = {f"C{n}": C(n) for n in range(1, 31)}
LIB.update({f"D{n}": D(n) for n in (3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 20)})
LIB.update({f"Dic{m}": _dic(m) for m in (2, 3, 4, 5, 6, 7)})
LIB.update({
    "S4": [_cyc(4, [0, 1, 2, 3]), _cyc(4, [0, 1])], "A4": [_cyc(4, [0, 1, 2]), _cyc(4, [1, 2, 3])],
    "A5": [_cyc(5, [0, 1, 2, 3, 4]), _cyc(5, [0, 1, 2])], "S5": [_cyc(5, [0, 1, 2, 3, 4]), _cyc(5, [0, 1])],
    "F20": _affine(5, 2), "F21": _affine(7, 2), "F42": _affine(7, 3), "F55": _affine(11, 3), "F39": _affine(13, 3),
    "SL23": _matperm([[[1, 1], [0, 1]], [[1, 0], [1, 1]]], 3, 2), "GL23": _matperm([[[1, 1], [0, 1]], [[2, 0], [0, 1]], [[0, 1], [1, 0]]], 3, 2),
    "Heis3": _heis(3), "Heis2": _heis(2), "Z9:Z3": _semi(9, 3, 4), "Z3:Z4": _semi(3, 4, 2), "SD16": _semi(8, 2, 3), "M16": _semi(8, 2, 5), "Z4:Z4": _semi(4, 4, 3),
    "Z5:Z8": _semi(5, 8, 2), "Z3:Z8": _semi(3, 8, 2),
    "C2^3": _prod(_prod(C(2), C(2)), C(2)), "C2^4": _prod(_prod(C(2), C(2)), _prod(C(2), C(2))), "C3^2": _prod(C(3), C(3)), "C3^3": _prod(_prod(C(3), C(3)), C(3)),
    "C4xC2": _prod(C(4), C(2)), "C5^2": _prod(C(5), C(5)), "C6xC3": _prod(C(6), C(3)),
    "D3xC3": _prod(D(3), C(3)), "D3xD3": _prod(D(3), D(3)), "D4xC3": _prod(D(4), C(3)), "D5xC2": _prod(D(5), C(2)), "D5xD3": _prod(D(5), D(3)),
    "Q8xC2": _prod(_dic(2), C(2)), "Q8xC3": _prod(_dic(2), C(3)), "A4xC2": _prod([_cyc(4, [0, 1, 2]), _cyc(4, [1, 2, 3])], C(2)), "A4xC3": _prod([_cyc(4, [0, 1, 2]), _cyc(4, [1, 2, 3])], C(3)),
    "S4xC2": _prod([_cyc(4, [0, 1, 2, 3]), _cyc(4, [0, 1])], C(2)), "F20xC2": _prod(_affine(5, 2), C(2)),
    "Z3wrZ2": [_cyc(6, [0, 1, 2]), _cyc(6, [0, 3], [1, 4], [2, 5])], "Z2wrZ3": [_cyc(6, [0, 1]), _cyc(6, [0, 2, 4], [1, 3, 5])],
    "Z4wrZ2": [_cyc(8, [0, 1, 2, 3]), _cyc(8, [0, 4], [1, 5], [2, 6], [3, 7])], "Z3wrZ3": [_cyc(9, [0, 1, 2]), _cyc(9, [0, 3, 6], [1, 4, 7], [2, 5, 8])],
})
NAMES = sorted(LIB)


@functools.lru_cache(maxsize=4)
def elements(name):
    return close(LIB[name])


def build(name, rng):
    """(elements as permutations, table) in a random order; table[i, j] = i after j"""
    E = np.array(elements(name))
    E = E[rng.permutation(len(E))] if rng.integers(5) else E
    ix = {tuple(p): i for i, p in enumerate(E.tolist())}
    # product g h: x -> g[h[x]]
    T = np.array([[ix[tuple(g[h].tolist())] for h in E] for g in E])
    return E, T


def identity(T):
    return int(np.where((T == np.arange(len(T))).all(axis=1))[0][0])


def element_order(T, g, e):
    m, x = 1, g
    while x != e:
        x = T[x, g]
        m += 1
    return m


def split_chain(T, rng):
    """generators (outermost first) of a series in which each step adds a cyclic complement of prime order normalising the group
    below it (the first step from the identity may have any order); None if the greedy search gets stuck"""
    n = len(T)
    e = identity(T)
    inv = np.argmax(T == e, axis=1)
    orders = [element_order(T, g, e) for g in range(n)]
    prime = [o > 1 and all(o % d for d in range(2, o)) for o in orders]
    for _ in range(30):
        S, gens = {e}, []
        while len(S) < n:
            c = [g for g in range(n) if g not in S and (prime[g] or (not gens and rng.integers(2))) and all(int(T[T[g, s], inv[g]]) in S for s in S)]
            if not c:
                break
            g = c[rng.integers(len(c))]
            x, N = e, set()
            for _m in range(orders[g]):
                N |= {int(T[x, s]) for s in S}
                x = int(T[x, g])
            S = N
            gens.append(g)
        else:
            return gens[::-1]
    return None


def cocycle(name, E, T, rng):
    """(factor system, kind): ones, coboundary, or one with a non-trivial class where easily available"""
    n = len(T)
    e = identity(T)
    om = np.ones((n, n), complex)
    kind = "one"
    dims = {"C2^3": 2, "C2^4": 2, "C3^2": 3, "C3^3": 3, "C5^2": 5, "C4xC2": 2, "C6xC3": 3}
    if name in dims and rng.integers(3):
        # exponents of the first two cyclic factors
        p = dims[name]
        sizes = {"C2^3": (2, 2), "C2^4": (2, 2), "C3^2": (3, 3), "C3^3": (3, 3), "C5^2": (5, 5), "C4xC2": (4, 2), "C6xC3": (6, 3)}[name]
        a, b = E[:, 0], E[:, sizes[0]] - sizes[0]
        om = np.exp(2j * np.pi * rng.integers(1, p) * np.outer(a, b) / p)
        kind = "heisenberg"
        if name == "C2^4" and rng.integers(2):
            c, d = E[:, 4] - 4, E[:, 6] - 6
            om = om * (-1.0) ** np.outer(c, d)
            kind = "heisenberg2"
    elif name[0] == "D" and name[1:].isdigit() and int(name[1:]) % 2 == 0 and rng.integers(2):
        m = int(name[1:])                                  # binary dihedral cover
        E0 = np.arange(m)
        U = []
        for g in E:
            s = 1 if (g[1] - g[0]) % m == 1 else -1
            r = int(g[0])
            ph = np.exp(1j * np.pi * r / m)
            u = np.diag([ph, ph.conj()])
            if s == -1:
                u = u @ np.array([[0, 1j], [1j, 0]])
            U.append(u)
        U = np.array(U)
        V = np.matmul(U[:, None], U[None])
        z = np.einsum("ijab,ijab->ij", V, U[T].conj()) / 2
        om = np.sign(z.real).astype(complex)
        kind = "binary"
    if rng.integers(3) == 0:
        c = np.exp(2j * np.pi * rng.random(n))
        c[e] = 1
        om = om * c[:, None] * c[None, :] / c[T]
        kind += "+coboundary"
    return om, kind


def matrices(name, rng, maxdim=12):
    """(integer matrices, table): the group by (signed) permutation matrices of its degree, sometimes in another lattice basis"""
    E, T = build(name, rng)
    n, d = E.shape
    M = np.zeros((n, d, d), dtype=int)
    for g, p in enumerate(E):
        M[g, p, np.arange(d)] = 1
    if d <= maxdim and rng.integers(3):
        P = np.eye(d, dtype=int)
        for _ in range(int(rng.integers(1, 5))):
            if d > 1:
                i, j = rng.choice(d, 2, replace=False)
                X = np.eye(d, dtype=int)
                X[i, j] = rng.choice([-1, 1])
                P = P @ X
        Q = np.rint(np.linalg.inv(P)).astype(int)
        M = np.einsum("ab,gbc,cd->gad", Q, M, P)
    elif d > 2 and rng.integers(2):
        # the representation on differences x_i - x_d: same group, one dimension less
        B = np.vstack([np.eye(d - 1, dtype=int), -np.ones((1, d - 1), int)])
        M = (M @ B)[:, :d - 1, :]
    return M, T


def halves(T, rng):
    """a random homomorphism to {0, 1} (all zero if there is none)"""
    n = len(T)
    e = identity(T)

    def closure(S):
        S = set(S)
        while True:
            a = np.fromiter(S, int)
            new = set(T[np.ix_(a, a)].ravel().tolist())
            if len(new) == len(S):
                return S
            S = new | S
    S = closure({e} | {int(T[g, g]) for g in range(n)})
    if len(S) == n:
        return np.zeros(n, int)
    rest = rng.permutation([g for g in range(n) if g not in S])
    for g in rest:
        if int(g) not in S:
            N = closure(S | {int(g)})
            if len(N) < n:
                S = N
    return np.array([0 if g in S else 1 for g in range(n)])

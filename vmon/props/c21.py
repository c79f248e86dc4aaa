"""C21: irreps of arbitrary finite groups given by a multiplication table and a factor system."""
import zlib

from .common import *
from .. import groups

RULE = ("one case = one finite group of a library of abstract groups (cyclic, dihedral, dicyclic, symmetric, alternating, Frobenius, Heisenberg, linear, "
        "wreath and direct products; most are no crystallographic point groups) with its elements in random order and a trivial, coboundary or "
        "non-trivial factor system; distinct non-trivial = (group, factor system kind, order of elements hashed) with more than one element")
ASSUMPTIONS = ["for more than 60 elements a warned empty answer of the random search is counted, not judged"]
CPU_LIMIT = 120


def cases(tier, seed):
    f = 36 if tier == "quick" else 120
    return [dict(g=g, r=r) for g in groups.NAMES for r in range(f if len(groups.elements(g)) <= 60 else max(1, f // 3))]


def cost(c):
    return len(groups.elements(c["g"])) ** 2


def judge(reps, T, om, n):
    m = oracle.complete_msgs(reps, n)
    for a, M in enumerate(reps):
        u, w = oracle.unitary_defect(M), oracle.law_defect(M, T, om)
        if u > 1e-6 or w > 1e-6:
            m.append(f"irrep {a}: unitarity {u:.2g}, product law {w:.2g}")
    return m


def run(case, ctx):
    from spgrep.group import get_identity_index, get_inverse_index, get_order
    from spgrep.irreps import (decompose_representation, enumerate_unitary_irreps_from_regular_representation,
                               enumerate_unitary_irreps_from_solvable_group_chain, get_physically_irrep, is_equivalent_irrep)
    from spgrep.representation import frobenius_schur_indicator, get_intertwiner, project_to_irrep, is_representation
    rng = seeded(case, ctx)
    name = case["g"]
    E, T = groups.build(name, rng)
    n = len(T)
    e = groups.identity(T)
    om, kind = groups.cocycle(name, E, T, rng)
    what = f"{name} ({n} elements) factor system {kind}: "
    # table queries
    inv = np.argmax(T == e, axis=1)
    ctx.check(int(ctx.call("identity_index", get_identity_index, T)) == e, what + "wrong identity")
    for g in rng.permutation(n)[:6]:
        g = int(g)
        x = int(ctx.call("inverse_index", get_inverse_index, T, g))
        ctx.check(x == inv[g], what + f"inverse of {g}: {x} expected {inv[g]}")
        x = int(ctx.call("order", get_order, T, g))
        ctx.check(x == groups.element_order(T, g, e), what + f"order of {g}: {x} expected {groups.element_order(T, g, e)}")
    # all irreps from the regular representation
    o = ctx.observe("from_regular", enumerate_unitary_irreps_from_regular_representation, oracle.regular(T, om))
    if o.exc is not None:
        ctx.fail(what + f"regular representation: raised {type(o.exc).__name__}: {str(o.exc)[:150]}")
        return
    irr = None
    if len(o.value) == 0 and o.warns and n > 60:
        ctx.count("gave_up")
    else:
        irr = oracle.as_reps(o.value, n)
        m = judge(irr, T, om, n)
        ctx.check(not m, what + "regular representation: " + "; ".join(m[:3]))
        if m:
            return
        if kind == "one":
            ncl = len({frozenset(int(T[T[a, b], inv[a]]) for a in range(n)) for b in range(n)})
            ctx.check(len(irr) == ncl, what + f"{len(irr)} irreps for {ncl} conjugacy classes")
    if irr is None:
        irr = oracle.irreps(T, om, rng)
    C = oracle.chars(irr)
    # all irreps through a chain of cyclic extensions
    gens = groups.split_chain(T, rng) if n > 1 else []
    if gens is None:
        ctx.count("no_split_chain")
    else:
        v = ctx.call("from_chain", enumerate_unitary_irreps_from_solvable_group_chain, T, om, gens)
        reps = oracle.as_reps(v, n)
        m = judge(reps, T, om, n)
        ctx.check(not m, what + f"chain {gens}: " + "; ".join(m[:3]))
        ctx.check(bool(m) or oracle.same_charset(oracle.chars(reps), C), what + "chain and regular representation give different irreps")
        ctx.count("chains")
        ctx.count(f"chain_steps:{len(gens)}")
        if not m and rng.integers(2):
            irr = reps
            C = oracle.chars(irr)
    # single irreps
    real = np.abs(om.imag).max() < 1e-12
    for a in rng.permutation(len(irr))[:6]:
        A = regauge(irr[a], rng, ["none", "haar", "orth", "perm"][rng.integers(4)])
        d = A.shape[1]
        b = int(rng.integers(len(irr)))
        ctx.check(bool(ctx.call("equivalence", is_equivalent_irrep, C[a], C[b])) == (a == b), what + f"equivalence test of irreps {a}, {b}")
        if n <= 60:
            ctx.check(bool(ctx.call("is_representation", is_representation, A, T, om)), what + f"irrep {a} rejected as representation")
        B = regauge(A, rng, "haar")
        M = oracle.as_array(ctx.call("intertwiner", get_intertwiner, A, B), "intertwiner", (d, d))
        x = max(abs(np.linalg.det(M) - 1), np.abs(M @ M.conj().T - np.eye(d)).max(), np.abs(A @ M - M @ B).max())
        ctx.check(x < 1e-5, what + f"intertwiner of irrep {a} (dim {d}) off by {x:.2g}")
        if not real:
            continue
        # with a real factor system, D* belongs to the same one: 1/n sum chi(g^2) om(g,g) = 1, -1 or 0
        sq = T[np.arange(n), np.arange(n)]
        want = int(np.rint((C[a][sq] * om[np.arange(n), np.arange(n)]).sum().real / n))
        fs = int(ctx.call("indicator", frobenius_schur_indicator, A))
        ctx.check(fs == want, what + f"indicator of irrep {a} (dim {d}): {fs} expected {want}")
        ctx.count(f"indicator:{want}")
        X = oracle.as_array(ctx.call("physically_irrep", get_physically_irrep, A, want), "real irrep", (n, d if want == 1 else 2 * d, d if want == 1 else 2 * d))
        m = []
        if np.iscomplexobj(X) and np.abs(X.imag).max() > 1e-8:
            m.append("not real")
        X = np.asarray(X).astype(complex)
        u, w = oracle.unitary_defect(X), oracle.law_defect(X, T, om)
        if u > 1e-6 or w > 1e-6:
            m.append(f"orthogonality {u:.2g}, product law {w:.2g}")
        c = np.einsum("kii->k", X)
        if np.abs(c - (C[a] if want == 1 else C[a] + C[a].conj())).max() > 1e-5:
            m.append("character is not that of the irrep" + ("" if want == 1 else " plus its conjugate"))
        ctx.check(not m, what + f"real form of irrep {a} (dim {d}, indicator {want}): " + "; ".join(m))
    # a reducible representation: decomposition and projection
    mult = rng.integers(0, 3, len(irr))
    while sum(x * D.shape[1] for x, D in zip(mult, irr)) > 24:
        mult[rng.integers(len(irr))] = 0
    if not mult.any():
        mult[0] = 1
    rep = regauge(oracle.direct_sum([D for x, D in zip(mult, irr) for _ in range(x)]), rng, "haar")
    o = ctx.observe("decompose", decompose_representation, rep)
    if o.exc is not None:
        ctx.fail(what + f"decomposition raised {type(o.exc).__name__}: {str(o.exc)[:150]}")
    else:
        out = oracle.as_reps(o.value, n)
        hits = []
        for D in out:
            c = np.einsum("kii->k", D)
            hits += [a for a in range(len(irr)) if np.abs(c - C[a]).max() < 1e-5] or [-1]
        ok = sorted(hits) == [a for a in range(len(irr)) if mult[a]] and all(oracle.unitary_defect(D) < 1e-6 and oracle.law_defect(D, T, om) < 1e-6 for D in out)
        ctx.check(ok, what + f"decomposition found {sorted(hits)}, the representation contains {mult.tolist()}")
    for a in rng.permutation(len(irr))[:3]:
        o = ctx.observe("project", project_to_irrep, rep, irr[a])
        if o.exc is not None:
            ctx.fail(what + f"projection raised {type(o.exc).__name__}: {str(o.exc)[:150]}")
            continue
        if len(o.value) != mult[a]:
            if not o.warns:
                ctx.fail(what + f"{len(o.value)} basis sets for irrep {a} occurring {mult[a]} times, no warning")
            continue
        for b in o.value:
            b = oracle.as_array(b, "basis set", (irr[a].shape[1], rep.shape[1]))
            x = max(np.abs(b.conj() @ b.T - np.eye(len(b))).max(), np.abs(rep @ b.T - b.T @ irr[a]).max())
            ctx.check(x < 1e-5, what + f"basis set for irrep {a} off by {x:.2g}")
    ctx.count("products_checked", n * n * len(irr))
    if n > 1:
        ctx.sig(name, kind, zlib.crc32(T.tobytes()))
    ctx.note(lambda: dict(case=case, order=n, factor_system=kind, dims=[m.shape[1] for m in irr], chain=gens))

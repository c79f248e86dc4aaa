"""C09: point-group irreps in every basis and order; chain generators."""
from .common import *

RULE = ("one case = the point group of one Hall setting (primitive or conventional axes) in a random lattice basis and operation order: representation law, "
        "unitarity, completeness with both methods (ordinary and spinor), and the generator chain rebuilt as a subgroup series; distinct non-trivial = "
        "(point group axes, basis, order of operations hashed) with more than one operation")
ASSUMPTIONS = ["spglib's database lists the operations of each Hall number correctly"]


def cases(tier, seed):
    f = 16 if tier == "quick" else 40
    out = [dict(h=h, r=r, conv=c) for h in range(1, 531) for r in range(f) for c in ((r + h) % 2,)]
    out += [dict(h=h, r=r, conv=0, deep=1) for h in gen.PG_HALLS for r in range(4 * f)]
    return out


def closure(T, S):
    S = set(S)
    while True:
        new = {int(T[a, b]) for a in S for b in S} | S
        if new == S:
            return S
        S = new


def chain_msgs(T, e, gens):
    """gens (outermost first) -> series of subgroups built from the innermost"""
    n = len(T)
    inv = np.argmax(T == e, axis=1)
    S = {int(e)}
    for g in reversed(gens):
        N = closure(T, S | {int(g)})
        if len(N) == len(S):
            return [f"generator {g} does not enlarge the subgroup of order {len(S)}"]
        for a in N:
            for s in S:
                if int(T[T[a, s], inv[a]]) not in S:
                    return [f"subgroup of order {len(S)} is not normal in the next one of order {len(N)}"]
        for a in N:
            for b in N:
                c = T[T[a, b], T[inv[a], inv[b]]]
                if int(c) not in S:
                    return [f"quotient of order {len(N) // len(S)} is not Abelian"]
        S = N
    if len(S) != n:
        return [f"generators give a subgroup of order {len(S)}, the group has {n}"]
    return []


def run(case, ctx):
    import spgrep
    from spgrep.pointgroup import get_pointgroup_chain_generators
    rng = seeded(case, ctx)
    h = case["h"]
    R = pgroup(h, rng, case["conv"], steps=(3, 5, 8, 12) if case.get("deep") else (0, 1, 2, 3, 5), big=True)
    if np.abs(R).max() > 90:
        ctx.skip("basis too skewed")
        return
    n = len(R)
    T = oracle.table(R)
    e = oracle.identity_index(R)[0]
    Rd, _, _ = dress(R, np.zeros((n, 3)), np.ones(3) * .1, rng)
    what = f"point group of hall {h} ({n} operations, max entry {np.abs(R).max()}): "
    g = ctx.call("chain_generators", get_pointgroup_chain_generators, Rd)
    g = oracle.as_array(g, "generators", kind="int").ravel() if len(g) else np.zeros(0, int)
    if n > 1 and (len(g) == 0 or g.min() < 0 or g.max() >= n):
        ctx.fail(what + f"chain generators {g.tolist()}")
    else:
        m = chain_msgs(T, e, g.tolist())
        ctx.check(not m, what + "chain: " + "; ".join(m))
    one = np.ones((n, n))
    L = gen.metric_lattice(R, rng)
    cs = {}
    for method in METHODS:
        kw = group_kw(rng, n)
        v = ctx.call("pointgroup_irreps", spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, Rd, method=method, **kw)
        reps = oracle.as_reps(v, n)
        m = oracle.complete_msgs(reps, n)
        for a, M in enumerate(reps):
            u, w = oracle.unitary_defect(M), oracle.law_defect(M, T, one)
            if u > 1e-6 or w > 1e-6:
                m.append(f"irrep {a}: unitarity {u:.2g}, product law {w:.2g}")
        ctx.check(not m, what + method + ": " + "; ".join(m[:3]))
        cs[method] = oracle.chars(reps)
        v = ctx.call("pointgroup_spinor_irreps", spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, Rd, method=method, **kw)
        irr, z, U = oracle.as_tuple(v, 3, "result")
        reps = oracle.as_reps(irr, n)
        m = oracle.spin_msgs(L, R, z, U, noise=1e-8, T=T) + oracle.complete_msgs(reps, n)
        for a, M in enumerate(reps):
            u, w = oracle.unitary_defect(M), oracle.law_defect(M, T, np.asarray(z))
            if u > 1e-6 or w > 1e-6:
                m.append(f"irrep {a}: unitarity {u:.2g}, product law {w:.2g}")
        ctx.check(not m, what + method + " spinor: " + "; ".join(m[:3]))
        cs[method + "s"] = oracle.chars(reps)
    for s in ("", "s"):
        ctx.check(oracle.same_charset(cs["Neto" + s], cs["random" + s]), what + f"methods disagree {s}")
    # the number of irreps is the number of conjugacy classes
    inv = np.argmax(T == e, axis=1)
    ncl = len({frozenset(int(T[T[a, b], inv[a]]) for a in range(n)) for b in range(n)})
    ctx.check(len(cs["Neto"]) == ncl, what + f"{len(cs['Neto'])} irreps for {ncl} conjugacy classes")
    ctx.count("products_checked", n * n)
    ctx.count(f"order:{n}")
    if n > 1:
        ctx.sig(h, case["conv"], n, int(oracle.codes(R)[0] % 1000003), tuple(np.abs(R).max(axis=(1, 2))[:6].tolist()))
    ctx.note(lambda: dict(case=case, order=n, generators=g.tolist(), dims=[m.shape[1] for m in reps], max_entry=int(np.abs(R).max())))

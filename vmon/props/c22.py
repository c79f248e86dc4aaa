"""C22: branching rules between separately requested lists of representations."""
from .common import *

RULE = ("one case = one space group or magnetic group; several requests (group and subgroup at the same wave vector; ordinary and spinor; two wave vectors and "
        "their sum; a special point and a line leaving it; all points of a grid) whose characters are reduced against each other; distinct non-trivial = (kind, group, flavour, orders, dims) with "
        "a little group of order > 1")
ASSUMPTIONS = ["subgroups keep all lattice translations", "spin rotations of two requests may differ by a sign per operation, which is read off and taken into account"]
K = ["special", "special2", "half", "line", "mixed", "special", "third", "gamma", "quarter", "plane"]


def cases(tier, seed):
    f = 5 if tier == "quick" else 24
    out = [dict(t=t, n=h, r=r) for h in range(1, 531) for r in range(f) for t in ("sub", "subspin", "so", "prod", "near")]
    out += [dict(t=t, n=u, r=r) for u in range(1, 1652) for r in range((f + 1) // 2) for t in ("msub", "mnear")]
    out += [dict(t="grid", n=h, r=r) for h in range(1, 531, 4) for r in range(max(1, f // 2))]
    return out


def cost(c):
    return 8 if c["t"] == "grid" else 1


def subgroup(T, e, rng, among=None):
    """closure of one to three random elements; sorted or shuffled"""
    n = len(T)
    pool = np.arange(n) if among is None else among
    S = {int(e)}
    for g in rng.choice(pool, int(rng.integers(1, 4))):
        S.add(int(g))
    while True:
        a = np.fromiter(S, int)
        new = set(T[np.ix_(a, a)].ravel().tolist())
        if len(new) == len(S):
            break
        S = new | S
    a = np.array(sorted(S))
    return rng.permutation(a) if rng.integers(2) else a


def multiplicities(C, X, what):
    """C: characters of irreducible members (norms may be 1, 2, 4), X: characters to be reduced, on the same operations.

    Returns (matrix of multiplicities, messages)"""
    n = C.shape[1]
    nrm = np.einsum("an,an->a", C.conj(), C).real / n
    M = (X @ C.conj().T) / n / nrm[None]
    Z = np.rint(M.real)
    out = []
    if np.abs(M - Z).max() > 1e-4 or Z.min() < 0:
        out.append(f"{what}multiplicities {np.round(M[np.argmax(np.abs(M - Z).max(axis=1))], 4).tolist()} are no counts")
    elif np.abs(X - Z @ C).max() > 1e-4:
        out.append(f"{what}the listed representations do not add up to the one being reduced")
    return Z.astype(int), out


def ask(ctx, flavour, L, R, t, tr, k, method):
    """characters and mapping; also spin rotations, indicators"""
    import spgrep
    if flavour == "ordinary":
        v = ctx.call("primitive_irreps", spgrep.get_spacegroup_irreps_from_primitive_symmetry, R, t, k, method=method)
        irr, mp = oracle.as_tuple(v, 2, "result")
        U = ind = None
    elif tr is None:
        v = ctx.call("primitive_spinor_irreps", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, kpoint=k, method=method)
        irr, _, U, mp = oracle.as_tuple(v, 4, "result")
        ind = None
    else:
        v = ctx.call("primitive_corep", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, tr, kpoint=k, method=method)
        irr, ind, _, U, _, mp = oracle.as_tuple(v, 6, "result")
    mp = oracle.as_array(mp, "mapping", kind="int")
    if len(mp) == 0 or mp.min() < 0 or mp.max() >= len(R) or len(set(mp.tolist())) != len(mp):
        raise Malformed(f"mapping {mp.tolist()[:50]}")
    reps = oracle.as_reps(irr, len(mp))
    if not reps:
        raise Malformed("no representation returned")
    U = None if U is None else oracle.as_array(U, "unitary rotations", (len(mp), 2, 2))
    return mp, oracle.chars(reps), U, ind


def signs(U1, U2):
    s = np.einsum("iab,iab->i", U1.conj(), U2) / 2
    if np.abs(np.abs(s) - 1).max() > 1e-5 or np.abs(s.imag).max() > 1e-5:
        return None
    return np.sign(s.real)


def run(case, ctx):
    rng = seeded(case, ctx)
    globals()["run_" + case["t"]](case, ctx, rng)


def group_of(case, rng):
    R, t = gen.prim(case["n"])
    R, t, _, _ = rand_presentation(R, t, rng)
    return R, t


def run_sub(case, ctx, rng, flavour="ordinary"):
    R, t = group_of(case, rng)
    L = gen.metric_lattice(R, rng, "rand")
    T = oracle.table(R)
    e = oracle.identity_index(R)[0]
    k = gen.kpoint(R, rng, K[rng.integers(len(K))])
    g = oracle.little(R, k)
    if g is None:
        ctx.skip("k too close to call")
        return
    mp, C, U, _ = ask(ctx, flavour, L, R, t, None, k, METHODS[rng.integers(2)])
    pos = {int(i): a for a, i in enumerate(mp)}
    for q in range(2):
        S = subgroup(T, e, rng, g if rng.integers(3) and len(g) > 1 else None)
        what = f"{flavour} hall {case['n']} k={np.round(k, 4).tolist()} {len(R)} -> {len(S)}: "
        mp2, C2, U2, _ = ask(ctx, flavour, L, R[S], t[S], None, k, METHODS[rng.integers(2)])
        low = S[mp2]
        if not set(low.tolist()) <= set(pos):
            ctx.fail(what + "an operation of the little group of the subgroup is missing from that of the group")
            continue
        cols = [pos[int(i)] for i in low]
        X = C[:, cols]
        if flavour != "ordinary":
            s = signs(U2, U[cols])
            if s is None:
                ctx.fail(what + "spin rotations of the same operations differ")
                continue
            X = X * s[None]
        M, msgs = multiplicities(C2, X, what)
        # Frobenius: induced dimension = index times dimension
        if not msgs and not np.array_equal(M.T @ C[:, pos[int(e)]].real.round().astype(int) * len(low), len(mp) * C2[:, list(low).index(e)].real.round().astype(int)):
            msgs.append(what + "dimensions of the induced representations are wrong")
        ctx.check(not msgs, "; ".join(msgs))
        ctx.count("reductions")
        if len(mp) > 1:
            ctx.sig("sub", flavour, case["n"], len(mp), len(low), M.shape, int(M.max()))
    ctx.note(lambda: dict(case=case, k=np.round(k, 4).tolist(), little=len(mp), sub=len(low)))


def run_subspin(case, ctx, rng):
    run_sub(case, ctx, rng, "spinor")


def run_so(case, ctx, rng):
    """spin-orbit splitting: ordinary irreps times spin 1/2 reduce to spinor irreps, and the other way round"""
    R, t = group_of(case, rng)
    L = gen.metric_lattice(R, rng, "rand")
    for q in range(2):
        k = gen.kpoint(R, rng, K[rng.integers(len(K))])
        if oracle.little(R, k) is None:
            ctx.skip("k too close to call")
            continue
        mp, C, _, _ = ask(ctx, "ordinary", L, R, t, None, k, METHODS[rng.integers(2)])
        mp2, C2, U, _ = ask(ctx, "spinor", L, R, t, None, k, METHODS[rng.integers(2)])
        what = f"spin-orbit hall {case['n']} k={np.round(k, 4).tolist()}: "
        if mp.tolist() != mp2.tolist():
            ctx.fail(what + "little groups of the ordinary and the spinor request differ")
            continue
        s = np.einsum("iaa->i", U)
        M, msgs = multiplicities(C2, C * s[None], what)
        N, more = multiplicities(C, C2 * s.conj()[None], what)
        if not msgs and not more and not np.array_equal(M, N.T):
            msgs.append(what + "multiplicities of the two reductions differ")
        ctx.check(not (msgs + more), "; ".join(msgs + more))
        ctx.count("spin_orbit_reductions")
        if len(mp) > 1:
            ctx.sig("so", case["n"], len(mp), M.shape, tuple(np.sort(M.sum(axis=1)).tolist()))
    ctx.note(lambda: dict(case=case, k=np.round(k, 4).tolist(), little=len(mp)))


def run_prod(case, ctx, rng):
    """selection rules: D(k1) x D(k2) on the common little group, reduced at k1 + k2; D(k) x D(k)* holds the trivial representation once"""
    R, t = group_of(case, rng)
    L = gen.metric_lattice(R, rng, "rand")
    T = oracle.table(R)
    f1, f2 = ["ordinary", "spinor"][rng.integers(2)], ["ordinary", "spinor"][rng.integers(2)]
    k1 = gen.kpoint(R, rng, K[rng.integers(len(K))])
    k2 = -k1 if rng.integers(3) == 0 else gen.kpoint(R, rng, K[rng.integers(len(K))])
    g1, g2 = oracle.little(R, k1), oracle.little(R, k2)
    if g1 is None or g2 is None:
        ctx.skip("k too close to call")
        return
    m1, C1, U1, _ = ask(ctx, f1, L, R, t, None, k1, METHODS[rng.integers(2)])
    m2, C2, U2, _ = ask(ctx, f2, L, R, t, None, k2, METHODS[rng.integers(2)])
    S = np.array([i for i in m1 if i in set(m2.tolist())])
    if len(S) == 0:
        ctx.fail("the little groups have no operation in common")
        return
    S = rng.permutation(S)
    f3 = "ordinary" if f1 == f2 else "spinor"
    what = f"product hall {case['n']} {f1} k={np.round(k1, 4).tolist()} x {f2} k={np.round(k2, 4).tolist()}: "
    m3, C3, U3, _ = ask(ctx, f3, L, R[S], t[S], None, k1 + k2, METHODS[rng.integers(2)])
    if len(m3) != len(S):
        ctx.fail(what + "an operation keeping both wave vectors does not keep their sum")
        return
    S = S[m3]
    p1, p2 = [m1.tolist().index(i) for i in S], [m2.tolist().index(i) for i in S]
    X = (C1[:, None, p1] * C2[None, :, p2]).reshape(-1, len(S))
    if f3 == "spinor":
        s = signs(U3, (U1[p1] if U1 is not None else U2[p2]))
    elif f1 == "spinor":
        s = signs(U1[p1], U2[p2])
    else:
        s = np.ones(len(S))
    if s is None:
        ctx.fail(what + "spin rotations of the same operations differ")
        return
    M, msgs = multiplicities(C3, X * s[None], what)
    if not msgs and f1 == f2 and len(S) == len(m1) == len(m2) and np.abs(k1 + k2).max() < 1e-12:
        one = [a for a in range(len(C3)) if np.abs(C3[a] - 1).max() < 1e-6]
        if len(one) != 1:
            msgs.append(what + f"{len(one)} trivial representations at the zone centre")
        else:
            P = M[:, one[0]].reshape(len(C1), len(C2))
            if not (np.array_equal(P.sum(axis=0), np.ones(len(C2))) and np.array_equal(P.sum(axis=1), np.ones(len(C1)))):
                msgs.append(what + f"the trivial representation occurs {P.tolist()} times in the products")
        ctx.count("conjugate_pairs")
    ctx.check(not msgs, "; ".join(msgs))
    ctx.count("products")
    if len(S) > 1:
        ctx.sig("prod", case["n"], f1, f2, len(m1), len(m2), len(S), M.shape)
    ctx.note(lambda: dict(case=case, k1=np.round(k1, 4).tolist(), k2=np.round(k2, 4).tolist(), common=len(S)))


def run_msub(case, ctx, rng):
    """magnetic group -> magnetic subgroup or its unitary half"""
    R, t, tr = gen.mprim(case["n"])
    R, t, tr, _ = rand_presentation(R, t, rng, tr)
    L = gen.metric_lattice(R, rng, "rand")
    T = oracle.table(R, tr)
    e = oracle.identity_index(R, tr)[0]
    k = gen.kpoint(R, rng, K[rng.integers(len(K))], tr=tr)
    g = oracle.little(R, k, tr)
    if g is None:
        ctx.skip("k too close to call")
        return
    mp, C, U, ind = ask(ctx, "spinor", L, R, t, tr, k, METHODS[rng.integers(2)])
    pos = {int(i): a for a, i in enumerate(mp)}
    for q in range(2):
        half = q == 0
        S = np.where(tr == 0)[0] if half else subgroup(T, e, rng, g if rng.integers(3) else None)
        what = f"magnetic {case['n']} k={np.round(k, 4).tolist()} {len(R)} -> {len(S)}{' unitary' if half else ''}: "
        zeros = half and rng.integers(2)
        mp2, C2, U2, ind2 = ask(ctx, "spinor", L, R[S], t[S], None if zeros else tr[S], k, METHODS[rng.integers(2)])
        low = S[mp2]
        if not set(low.tolist()) <= set(pos):
            ctx.fail(what + "an operation of the little group of the subgroup is missing from that of the group")
            continue
        u = np.where(tr[low] == 0)[0]
        cols = [pos[int(i)] for i in low]
        s = signs(U2, U[cols])
        if s is None:
            ctx.fail(what + "spin rotations of the same operations differ")
            continue
        M, msgs = multiplicities(C2[:, u], (C[:, cols] * s[None])[:, u], what)
        if half and not msgs and len(ind) == len(M) and (tr[mp] != 0).any():
            for a, i in enumerate(ind):
                row = sorted(M[a][M[a] > 0].tolist())
                want = {1: [1], -1: [2], 0: [1, 1]}.get(int(i))
                if row != want:
                    msgs.append(f"{what}co-representation {a} of indicator {int(i)} splits as {row} over the unitary half")
        if half and not msgs and (M.sum(axis=0) == 0).any():
            msgs.append(what + "a representation of the unitary half occurs in no co-representation")
        ctx.check(not msgs, "; ".join(msgs[:3]))
        ctx.count("magnetic_reductions")
        if len(mp) > 1:
            ctx.sig("msub", case["n"], len(mp), len(low), M.shape)
    ctx.note(lambda: dict(case=case, k=np.round(k, 4).tolist(), little=len(mp), sub=len(low)))


def run_near(case, ctx, rng):
    """compatibility relations: the representations at k0 split, on the way to k0 + d, into those at k0 + d"""
    mag = case["t"] == "mnear"
    if mag:
        R, t, tr = gen.mprim(case["n"])
        R, t, tr, _ = rand_presentation(R, t, rng, tr)
        fl = "spinor"
    else:
        R, t = group_of(case, rng)
        tr = None
        fl = ["ordinary", "spinor"][rng.integers(2)]
    sg = np.ones(len(R)) if tr is None else 1.0 - 2.0 * (np.asarray(tr) != 0)
    L = gen.metric_lattice(R, rng, "rand")
    T = oracle.table(R, tr)
    e = (oracle.identity_index(R, tr) if tr is not None else oracle.identity_index(R))[0]
    for q in range(2):
        k0 = gen.kpoint(R, rng, K[rng.integers(len(K))], tr=tr) if tr is not None else gen.kpoint(R, rng, K[rng.integers(len(K))])
        g = oracle.little(R, k0, tr)
        if g is None:
            ctx.skip("k too close to call")
            continue
        H = subgroup(T, e, rng, g)
        P = np.mean(sg[H][:, None, None] * R[H], axis=0)
        d = (rng.normal(size=3) @ P) * 10.0 ** rng.uniform(-4, 0)
        if np.abs(d).max() < 1e-5:
            d = rng.normal(size=3) * .1
        line = [int(i) for i in g if np.abs(d @ R[i] * sg[i] - d).max() < 1e-10]
        k = k0 + d
        g1 = oracle.little(R, k, tr)
        if g1 is None or sorted(int(i) for i in g1) != sorted(line):
            ctx.skip("another special point was met")
            continue
        what = f"{'magnetic' if mag else fl + ' hall'} {case['n']} k={np.round(k0, 4).tolist()} towards {np.round(d, 5).tolist()}: "
        m0, C0, U0, _ = ask(ctx, fl, L, R, t, tr, k0, METHODS[rng.integers(2)])
        m1, C1, U1, _ = ask(ctx, fl, L, R, t, tr, k, METHODS[rng.integers(2)])
        if sorted(m1.tolist()) != sorted(line) or not set(line) <= set(m0.tolist()):
            ctx.fail(what + f"operations {sorted(m1.tolist())} and {sorted(m0.tolist())}, expected {sorted(line)} to be kept along the line")
            continue
        cols = [m0.tolist().index(i) for i in m1]
        X = C0[:, cols] * np.exp(-2j * np.pi * (t[m1] @ d))[None]
        if U0 is not None:
            s = signs(U1, U0[cols])
            if s is None:
                ctx.fail(what + "spin rotations of the same operations differ")
                continue
            X = X * s[None]
        u = np.where(sg[m1] > 0)[0]
        M, msgs = multiplicities(C1[:, u], X[:, u], what)
        if not msgs and (M.sum(axis=0) == 0).any():
            msgs.append(what + "a representation on the line comes from none at the special point")
        ctx.check(not msgs, "; ".join(msgs))
        ctx.count("compatibility_relations")
        if len(m1) > 1:
            ctx.sig(case["t"], case["n"], fl, len(m0), len(m1), M.shape)
    ctx.note(lambda: dict(case=case, k0=np.round(k0, 4).tolist(), d=np.round(d, 5).tolist(), line=len(line)))


run_mnear = run_near


def run_grid(case, ctx, rng):
    """the irreps of the finite group G / N-fold translations: stars of a regular grid of wave vectors, sum (|star| dim)^2 = order"""
    R, t = group_of(case, rng)
    N = int(rng.choice([2, 3, 2, 4] if len(R) <= 8 else [2, 3] if len(R) <= 16 else [2]))
    L = gen.metric_lattice(R, rng, "rand")
    fl = ["ordinary", "spinor"][rng.integers(2)]
    pts = [(a, b, c) for a in range(N) for b in range(N) for c in range(N)]
    seen, total = set(), 0
    for p in pts:
        if p in seen:
            continue
        arms = {tuple(int(x) for x in (np.array(p) @ r) % N) for r in R}
        seen |= arms
        k = np.array(sorted(arms)[rng.integers(len(arms))]) / N + rng.integers(-1, 2, 3)
        mp, C, _, _ = ask(ctx, fl, L, R, t, None, k, METHODS[rng.integers(2)])
        e = [i for i in range(len(mp)) if (R[mp[i]] == oracle.I3).all()]
        if len(e) != 1 or len(mp) * len(arms) != len(R):
            ctx.fail(f"hall {case['n']} k={k.tolist()}: little group of order {len(mp)} for a star of {len(arms)} arms and {len(R)} operations")
            return
        total += int(sum(np.rint(np.abs(C[:, e[0]])) ** 2)) * len(arms) ** 2
        ctx.count("stars")
    ctx.check(total == len(R) * N ** 3, f"hall {case['n']} {fl} grid {N}: sum of squared dimensions {total}, order {len(R) * N ** 3}")
    ctx.sig("grid", case["n"], fl, N, len(R))
    ctx.note(lambda: dict(case=case, N=N, order=len(R), flavour=fl))

"""C13: validity checkers."""
from .common import *
from .. import groups

RULE = ("one case = one valid object family (group, factor system, irrep, space-group representation in primitive or centred description) and a series of "
        "single-site mutations (one matrix, one entry, one phase, one table or sign entry, one operation), each verdict compared with the truth computed "
        "independently; objects within [1e-7, 1e-3] of validity are not judged; distinct non-trivial = (predicate, mutation, group, site)")
ASSUMPTIONS = ["equivalence is judged on characters of irreps only"]
FL = ["ordinary", "spinor", "small", "twisted"]


def cases(tier, seed):
    f = 15 if tier == "quick" else 50
    return [dict(h=h, r=r, fl=FL[(h + r) % 4]) for h in range(1, 531) for r in range(f)] + \
           [dict(h=h, r=r, fl="space") for h in range(1, 531) for r in range(2 * f // 5)] + \
           [dict(h=i, r=r, fl="any") for i in range(len(groups.NAMES)) for r in range(f // 3)]


def verdict(ctx, name, fn, truth, what, *a, **k):
    v = ctx.call(name, fn, *a, **k)
    if not isinstance(v, (bool, np.bool_)):
        ctx.fail(f"{name} returned {type(v).__name__}")
        return
    ctx.check(bool(v) == truth, f"{name}: {what}: answered {bool(v)}, truth is {truth}")
    ctx.count(f"{name}:{truth}")


def truth_of(defect):
    return True if defect < 1e-7 else (False if defect > 1e-3 else None)


def mutate(M, rng):
    """one visible change of a stack of matrices"""
    M = np.array(M, dtype=complex)
    g = int(rng.integers(len(M)))
    d = M.shape[1]
    c = rng.integers(6)
    i, j = rng.integers(d, size=2)
    if c == 0:
        M[g, i, j] += 10.0 ** rng.integers(-2, 1) * np.exp(2j * np.pi * rng.random())
        nm = "entry"
    elif c == 1:
        M[g] *= np.exp(2j * np.pi * [0.5, 1 / 3, 0.25, 0.01][rng.integers(4)])
        nm = "phase"
    elif c == 2:
        M[g] *= 1 + [0.02, -0.02, 1.0][rng.integers(3)]
        nm = "scale"
    elif c == 3 and len(M) > 1:
        q = int(rng.integers(len(M)))
        M[[g, q]] = M[[q, g]]
        nm = "swap"
    elif c == 4:
        M[g] = M[g].conj().T if rng.integers(2) else M[g].T
        nm = "transpose"
    else:
        M[g] = M[g] @ gen.haar(d, rng)
        nm = "rotate"
    return M, g, nm


def run(case, ctx):
    from spgrep import representation as rp, group as gp, irreps as ir, utils as ut
    rng = seeded(case, ctx)
    h, fl = case["h"], case["fl"]
    if fl == "space":
        return run_space(case, ctx, rng)
    if fl == "any":
        return run_any(case, ctx, rng)
    R, T, om = algebra(h, rng, fl, conv=bool(rng.integers(2)))
    n = len(R)
    irr = oracle.irreps(T, om, rng)
    D = irr[rng.integers(len(irr))] if rng.integers(3) else oracle.direct_sum([irr[i] for i in rng.integers(len(irr), size=2)])
    what = f"hall {h} {fl} "
    # unitarity
    verdict(ctx, "is_unitary", rp.is_unitary, True, what + "irrep", D)
    for _ in range(3):
        M, g, nm = mutate(D, rng)
        t = truth_of(oracle.unitary_defect(M))
        if t is not None:
            verdict(ctx, "is_unitary", rp.is_unitary, t, what + f"{nm} at {g}", M)
            ctx.sig("unitary", nm, h, g)
    S = np.linalg.inv(np.eye(D.shape[1]) + 0.3 * rng.normal(size=D.shape[1:]))
    N = np.linalg.inv(S) @ D @ S    # equivalent but usually not unitary, still a representation
    t = truth_of(oracle.unitary_defect(N))
    if t is not None:
        verdict(ctx, "is_unitary", rp.is_unitary, t, what + "skewed basis", N)
    # representation
    if n <= 48:
        pure = np.abs(om - 1).max() < 1e-12
        Z = None if pure and rng.integers(2) else om
        verdict(ctx, "is_representation", rp.is_representation, True, what + "irrep", D, T, Z)
        if np.abs(N).max() < 50:
            verdict(ctx, "is_representation", rp.is_representation, True, what + "non-unitary equivalent", N, T, Z, rtol=1e-5, atol=1e-7)
        if not pure:
            verdict(ctx, "is_representation", rp.is_representation, oracle.law_defect(D, T, np.ones((n, n))) < 1e-7, what + "without its factor system", D, T)
        for _ in range(4):
            c = rng.integers(4)
            M, X, Y, g = D, T, (np.ones((n, n), complex) if Z is None else np.array(Z)), 0
            if c < 2:
                M, g, nm = mutate(D, rng)
            elif c == 2 and n > 1:
                X = T.copy()
                i, j = rng.integers(n, size=2)
                X[i, j] = (X[i, j] + 1 + rng.integers(n - 1)) % n
                nm = "table entry"
            else:
                Y = Y.copy()
                i, j = rng.integers(n, size=2)
                Y[i, j] *= np.exp(2j * np.pi * [0.5, 0.25, 1 / 3, 0.01][rng.integers(4)])
                nm = "factor entry"
            t = truth_of(oracle.law_defect(M, X, Y))
            if t is not None:
                verdict(ctx, "is_representation", rp.is_representation, t, what + f"{nm} changed at {g}", M, X, Y)
                ctx.sig("rep", nm, h, n, t)
        # the caller's tolerance decides
        M = np.array(D, dtype=complex)
        g = int(rng.integers(n))
        M[g] *= np.exp(1j * (0.02 if rng.integers(2) else 3e-6) * rng.choice([-1, 1]))
        Y = np.ones((n, n), complex) if Z is None else Z
        dd = oracle.law_defect(M, T, Y)
        if dd > 1e-3:
            verdict(ctx, "is_representation", rp.is_representation, True, what + f"deviation {dd:.2g}, tolerances 0.5", M, T, Z, rtol=0.5, atol=0.5)
            if np.abs(D).max() < 1.1:
                verdict(ctx, "is_representation", rp.is_representation, True, what + f"deviation {dd:.2g}, atol 0.2", M, T, Z, rtol=0.0, atol=0.2)
        elif dd > 1e-6:
            verdict(ctx, "is_representation", rp.is_representation, False, what + f"deviation {dd:.2g}, tolerances 1e-9", M, T, Z, rtol=1e-9, atol=1e-9)
            verdict(ctx, "is_representation", rp.is_representation, True, what + f"deviation {dd:.2g}, atol 1e-4", M, T, Z, rtol=0.0, atol=1e-4)
    # cocycle
    if n <= 16 or rng.integers(4 if n <= 24 else 15) == 0:
        verdict(ctx, "check_cocycle", gp.check_cocycle_condition, True, what + "factor system", R, om)
        for _ in range(2):
            Y = np.array(om)
            i, j = rng.integers(n, size=2)
            Y[i, j] *= np.exp(2j * np.pi * [0.5, 0.25, 1 / 3, 0.02][rng.integers(4)])
            lhs = Y[:, T] * Y[None]
            rhs = Y[T[:, :, None], np.arange(n)[None, None]] * Y[:, :, None]
            t = truth_of(np.abs(lhs - rhs).max())
            if t is not None:
                verdict(ctx, "check_cocycle", gp.check_cocycle_condition, t, what + f"entry {i},{j} changed", R, Y)
                ctx.sig("cocycle", h, n, int(i), int(j))
        if n > 2:
            verdict(ctx, "check_cocycle", gp.check_cocycle_condition, False, what + "one operation missing", R[:-1], om[:-1, :-1])
    # matrix group
    verdict(ctx, "is_matrix_group", gp.is_matrix_group, True, what + "point group", R)
    for _ in range(4):
        c = rng.integers(4)
        if c == 0 and n > 1:
            g = int(rng.integers(n))
            X = np.delete(R, g, axis=0)
            nm = "removed"
        elif c == 1:
            X = R.copy()
            g = int(rng.integers(n))
            i, j = rng.integers(3, size=2)
            X[g, i, j] += rng.choice([-1, 1, 2])
            nm = "entry"
        elif c == 2 and n > 1:
            X = R.copy()
            g, q = rng.choice(n, 2, replace=False)
            X[g] = X[q]
            nm = "duplicated"
        else:
            O = pgroup(int(rng.integers(1, 531)), rng, big=True)
            X = np.concatenate([R, O[rng.integers(len(O))][None]])
            g = n
            nm = "appended"
        t = is_group(X)
        if t is not None:
            verdict(ctx, "is_matrix_group", gp.is_matrix_group, t, what + f"operation {g} {nm}", X)
            ctx.sig("group", nm, h, n, int(g), t)
    # equivalence
    C = oracle.chars(irr)
    for _ in range(6):
        a, b = rng.integers(len(irr), size=2)
        x = C[a]
        y = np.einsum("kii->k", regauge(irr[b], rng, "haar"))
        verdict(ctx, "is_equivalent_irrep", ir.is_equivalent_irrep, bool(a == b), what + f"irreps {a},{b}", x, y)
    # integers
    A = rng.integers(-40, 41, tuple(rng.integers(1, 5, rng.integers(1, 4)))).astype(float)
    kw = [{}, dict(rtol=0.0, atol=1e-4), dict(rtol=1e-4, atol=1e-4)][rng.integers(3)]
    sm = 1e-9 if not kw else 5e-5
    verdict(ctx, "is_integer_array", ut.is_integer_array, True, f"integers with noise {sm}", A + sm * rng.uniform(-1, 1, A.shape), **kw)
    big = rng.integers(200, 2000, 3).astype(float) * rng.choice([-1, 1], 3)
    big[rng.integers(3)] += [0.3, -0.3, 0.05][rng.integers(3)]
    verdict(ctx, "is_integer_array", ut.is_integer_array, True, f"{big} with rtol 1e-2", big, rtol=1e-2, atol=0.0)
    verdict(ctx, "is_integer_array", ut.is_integer_array, False, f"{big} with rtol 1e-6", big, rtol=1e-6)
    verdict(ctx, "is_integer_array", ut.is_integer_array, True, f"{big} with atol 0.4", big, rtol=0.0, atol=0.4)
    B = A.copy()
    p = tuple(rng.integers(s) for s in B.shape)
    B[p] += [0.5, -0.5, 0.1, -0.02, 1 / 3, 0.98][rng.integers(6)]
    verdict(ctx, "is_integer_array", ut.is_integer_array, False, f"entry {p} = {B[p]}", B, **kw)
    ctx.note(lambda: dict(case=case, order=n, dims=[m.shape[1] for m in irr]))


def is_group(X):
    if len({x.tobytes() for x in X}) != len(X):
        # a repeated element: truly not a list of distinct group elements; judged only if something is missing
        U = np.array([np.frombuffer(b, X.dtype).reshape(3, 3) for b in {x.tobytes() for x in X}])
        return False if oracle.table(U) is None else None
    if np.abs(X).max() > 200 or np.abs(np.linalg.det(X.astype(float))).min() < 0.5:
        return None if oracle.table(X) is not None else False
    return oracle.table(X) is not None


def run_any(case, ctx, rng):
    """groups of integer matrices that are no crystallographic point groups"""
    from spgrep import representation as rp, group as gp
    name = groups.NAMES[case["h"]]
    R, T = groups.matrices(name, rng)
    n, d = R.shape[:2]
    what = f"{name} by {d}-dimensional matrices: "
    verdict(ctx, "is_matrix_group", gp.is_matrix_group, True, what + "group", R)
    if n > 2:
        g = int(rng.integers(n))
        verdict(ctx, "is_matrix_group", gp.is_matrix_group, False, what + f"element {g} removed", np.delete(R, g, axis=0))
        S = np.sort(rng.choice(n, int(rng.integers(1, n)), replace=False))
        t = bool(np.isin(T[np.ix_(S, S)], S).all())
        verdict(ctx, "is_matrix_group", gp.is_matrix_group, t, what + f"elements {S.tolist()[:20]} kept", R[S])
    one = np.ones((n, n), complex)
    c = np.exp(2j * np.pi * rng.random(n))
    om = one if rng.integers(2) else c[:, None] * c[None] / c[T]
    D = R.astype(complex) * c[:, None, None] if om is not one else R.astype(complex)
    D = np.einsum("ab,gbc,cd->gad", np.linalg.inv(q := gen.haar(d, rng)), D, q)
    verdict(ctx, "is_representation", rp.is_representation, True, what + "matrices", D, T, None if om is one else om)
    for _ in range(3):
        M, g, nm = mutate(D, rng)
        t = truth_of(oracle.law_defect(M, T, om))
        if t is not None:
            verdict(ctx, "is_representation", rp.is_representation, t, what + f"{nm} at {g}", M, T, om)
        t = truth_of(oracle.unitary_defect(M))
        if t is not None:
            verdict(ctx, "is_unitary", rp.is_unitary, t, what + f"{nm} at {g}", M)
    if n <= 16 or n <= 42 and rng.integers(12) == 0:
        verdict(ctx, "check_cocycle", gp.check_cocycle_condition, True, what + "factor system", R, om)
        Y = om.copy()
        i, j = rng.integers(n, size=2)
        Y[i, j] *= np.exp(2j * np.pi * [0.5, 0.25, 1 / 3, 0.02][rng.integers(4)])
        t = truth_of(np.abs(Y[:, T] * Y[None] - Y[T[:, :, None], np.arange(n)[None, None]] * Y[:, :, None]).max())
        if t is not None:
            verdict(ctx, "check_cocycle", gp.check_cocycle_condition, t, what + f"entry {i},{j} changed", R, Y)
    if n > 1:
        ctx.sig("any", name, d, om is one, int(T[0, -1]))
    ctx.note(lambda: dict(case=case, group=name, order=n, dim=d))


def run_space(case, ctx, rng):
    from spgrep.representation import check_spacegroup_representation as chk
    h = case["h"]
    R, t, _, _ = rand_presentation(*gen.prim(h), rng, big=16)
    k = gen.kpoint(R, rng, ["special", "special2", "half", "line", "mixed", "special"][rng.integers(6)])
    g = oracle.little(R, k)
    if g is None:
        ctx.skip("k too close to call")
        return
    R, t = R[g], t[g]
    T = oracle.table(R)
    om, _ = oracle.lattice_phase(R, t, k, T)
    n = len(R)
    z = spin_factor(R, T, rng) if rng.integers(2) else None
    D = oracle.irreps(T, om if z is None else om * z, rng)
    D = D[rng.integers(len(D))]
    spin = {} if z is None else dict(spinor_factor_system=z)
    what = f"hall {h} k={np.round(k, 4).tolist()} {'spinor ' if spin else ''}"
    if n <= 16 and rng.integers(2):
        # centred description: every operation several times, with centring translations, in a supercell of 2-4 lattice points
        H = np.array([[[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[2, 0, 0], [0, 1, 0], [0, 0, 1]]][rng.integers(3)], float)
        Hi = np.linalg.inv(H)
        Rc = np.einsum("ab,ibc,cd->iad", Hi, R, H)
        if np.abs(Rc - np.rint(Rc)).max() < 1e-9:
            cos = []
            for p in np.ndindex(3, 3, 3):
                y = (Hi @ np.array(p)) % 1.0
                y[np.abs(y - 1) < 1e-9] = 0
                if all(np.abs(y - w - np.rint(y - w)).max() > 1e-9 for w in cos):
                    cos.append(y)
            tc = t @ Hi.T
            kc = H.T @ k
            R = np.concatenate([np.rint(Rc).astype(int)] * len(cos))
            t = np.concatenate([tc + y for y in cos])
            D = np.concatenate([D * np.exp(-2j * np.pi * (kc @ y)) for y in cos])
            m = len(cos)
            if z is not None:
                z = np.tile(z, (m, m))
                spin = dict(spinor_factor_system=z)
            k = kc
            p = rng.permutation(len(R))
            R, t, D = R[p], t[p], D[p]
            if z is not None:
                z = z[np.ix_(p, p)]
                spin = dict(spinor_factor_system=z)
            n = len(R)
            ctx.count("centred")
            what += "centred "

    def defect(R, t, k, D, z):
        TT, Lv = oracle.conv_table(R, t)
        if TT is None:
            return None
        w = np.exp(-2j * np.pi * (Lv @ k)) * (1 if z is None else z)
        x = oracle.law_defect(D, TT, w)
        for i in np.where((R == oracle.I3).all(axis=(1, 2)))[0]:   # centring translations act by their phase
            x = max(x, np.abs(D[i] - np.exp(-2j * np.pi * (k @ t[i])) * np.eye(D.shape[1])).max())
        return x
    d0 = defect(R, t, k, D, z)
    if d0 is None or d0 > 1e-8:
        ctx.skip("reference object invalid")
        return
    verdict(ctx, "check_spacegroup_representation", chk, True, what, R, t, k, D, **spin)
    M = np.array(D, dtype=complex)
    M[rng.integers(n)] *= np.exp(0.02j)
    dd = defect(R, t, k, M, z)
    # the caller's relative tolerance decides (only where every entry of the products is of order one)
    if dd > 1e-3 and D.shape[1] == 1:
        verdict(ctx, "check_spacegroup_representation", chk, True, what + f"deviation {dd:.2g}, rtol 0.2", R, t, k, M, rtol=0.2, **spin)
    M = np.array(D, dtype=complex)
    M[rng.integers(n)] *= np.exp(1e-6j)
    dd = defect(R, t, k, M, z)
    if dd > 5e-7:
        verdict(ctx, "check_spacegroup_representation", chk, False, what + f"deviation {dd:.2g}, rtol 1e-9", R, t, k, M, rtol=1e-9, **spin)
    for _ in range(4):
        c = rng.integers(4)
        if c < 2:
            M, q, nm = mutate(D, rng)
            dd = defect(R, t, k, M, z)
            a = (R, t, k, M)
            s = spin
        elif c == 2 and z is not None:
            Z = z.copy()
            i, j = rng.integers(n, size=2)
            Z[i, j] *= -1
            dd = defect(R, t, k, D, Z)
            a = (R, t, k, D)
            s, q, nm = dict(spinor_factor_system=Z), (int(i), int(j)), "sign"
        else:
            # another wave vector of the same little group: a different law
            q, nm = 0, "operations reordered"
            p = np.roll(np.arange(n), 1)
            a = (R, t, k, D[p])
            s = spin
            dd = defect(R, t, k, D[p], z)
        tr = None if dd is None else truth_of(dd)
        if tr is not None:
            verdict(ctx, "check_spacegroup_representation", chk, tr, what + f"{nm} at {q}", *a, **s)
            ctx.sig("space", nm, h, n, tr)
    ctx.note(lambda: dict(case=case, order=n, dim=D.shape[1], k=np.round(k, 4).tolist()))

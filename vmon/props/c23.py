"""C23: entry points agree wherever their domains overlap."""
from .common import *
from .conv import *

RULE = ("one case = one request expressed through every entry point that can answer it (high-level call, chain of its documented parts, point-group call at the zone "
        "centre, crystal-structure call, magnetic call without anti-unitary operations or with zero moments); the answers are compared as sets of characters, "
        "mappings, indicators and signs; distinct non-trivial = (kind, group, cell, little-group order, dims) with order > 1")
ASSUMPTIONS = ["answers may differ by unitary equivalence, order and, for spinors, by a sign per operation that is visible in the returned spin rotations"]


def cases(tier, seed):
    f = 2 if tier == "quick" else 16
    V = gen.VARIANTS
    out = [dict(t="chain", h=h, r=r) for h in range(1, 531) for r in range(f)]
    out += [dict(t="spinor", h=h, r=r) for h in range(1, 531) for r in range(f)]
    out += [dict(t="point", h=h, r=r) for h in gen.PG_HALLS for r in range(4 * f)]
    for h in range(1, 531):
        n = len(gen._db(h)[0])
        for r in range(f):
            v = V[(h + 3 * r + 5 + seed) % len(V)]
            if v == "super" and n > 16:
                v = "shift"
            out.append(dict(t="crystal", h=h, v=v, r=r))
    return out


def cost(c):
    return (2 + len(gen._db(c["h"])[0]) / 8) if c["t"] == "crystal" else 1


def run(case, ctx):
    rng = seeded(case, ctx)
    globals()["run_" + case["t"]](case, ctx, rng)


def with_ind(C, ind):
    """characters extended by a column of indicators, so that both are matched together"""
    return np.hstack([C, np.asarray(ind, float).reshape(-1, 1)])


def compare(ctx, what, answers):
    """answers: list of (name, characters); all sets must be equal"""
    n0, C0 = answers[0]
    for nm, C in answers[1:]:
        ctx.check(oracle.same_charset(C0, C, tol=1e-5), f"{what}{n0} and {nm} return different sets of representations ({C0.shape[0]} and {np.shape(C)[0]})")
        ctx.count("compared:" + nm)


def run_chain(case, ctx, rng):
    import spgrep
    from spgrep import group as gp, irreps as ir, representation as rp
    from spgrep.pointgroup import get_pointgroup_chain_generators
    R, t = gen.prim(case["h"])
    R, t, _, _ = rand_presentation(R, t, rng)
    for q in range(2):
        kind = gen.K_KINDS[rng.integers(len(gen.K_KINDS))] if q else "special"
        k = gen.kpoint(R, rng, kind)
        exp = oracle.little(R, k)
        if exp is None:
            ctx.skip("k too close to call")
            continue
        what = f"hall {case['h']} k={np.round(k, 4).tolist()}: "
        Rd, td, kd = dress(R, t, k, rng)
        m = [METHODS[i] for i in rng.integers(0, 2, 4)]
        irr, mp = oracle.as_tuple(ctx.call("primitive_irreps", spgrep.get_spacegroup_irreps_from_primitive_symmetry, Rd, td, kd, method=m[0]), 2, "result")
        lr, lt, mp2 = oracle.as_tuple(ctx.call("little_group", gp.get_little_group, Rd, td, kd), 3, "little group")
        if list(mp) != list(mp2):
            ctx.fail(what + "the entry point and get_little_group list different operations")
            continue
        n = len(mp)
        small, ind = oracle.as_tuple(ctx.call("small_representations", ir.enumerate_small_representations, lr, lt, kd, method=m[1]), 2, "result")
        om = oracle.as_array(ctx.call("factor_system", gp.get_factor_system_from_little_group, lr, lt, np.asarray(kd)), "factor system", (n, n))
        co, cind = oracle.as_tuple(ctx.call("unitary_irreps", ir.enumerate_unitary_irreps, lr, om, method=m[2]), 2, "result")
        T = oracle.as_array(ctx.call("table", gp.get_cayley_table, lr), "table", (n, n), kind="int")
        reg = ctx.call("regular", rp.get_projective_regular_representation, lr, om)
        fr = ctx.call("from_regular", ir.enumerate_unitary_irreps_from_regular_representation, reg)
        dec = ctx.call("decompose", ir.decompose_representation, reg)
        ch = ctx.call("from_chain", ir.enumerate_unitary_irreps_from_solvable_group_chain, T, om, ctx.call("chain", get_pointgroup_chain_generators, lr))
        ph = np.exp(-2j * np.pi * (t[exp] @ np.asarray(k, float)))
        ans = [("the entry point", oracle.chars(oracle.as_reps(irr, n))), ("small representations", oracle.chars(oracle.as_reps(small, n)))]
        for nm, x in (("little co-group irreps", co), ("the regular representation", fr), ("decomposition of the regular representation", dec), ("the chain", ch)):
            ans.append((nm, oracle.chars(oracle.as_reps(x, n)) * ph[None]))
        compare(ctx, what, ans)
        k2 = 2 * np.asarray(k, float)
        if np.abs(k2 - np.rint(k2)).max() < 1e-9 and len(ind) == len(small):
            # at 2k = 0 the indicator of a small representation refers to the same group elements whatever computes it
            real = [ctx.call("fs", rp.frobenius_schur_indicator, np.asarray(x)) for x in small]
            ctx.check(list(map(int, real)) == list(map(int, ind)), what + f"indicators {list(ind)} but frobenius_schur_indicator says {real}")
        real = [ctx.call("fs", rp.frobenius_schur_indicator, np.asarray(x)) for x in co]
        # with complex factors the sum of chi(g^2) need not be an integer and its rounding is nobody's promise
        ctx.check(np.abs(om.imag).max() > 1e-9 or list(map(int, real)) == list(map(int, cind)), what + f"indicators {list(cind)} of the co-group irreps but frobenius_schur_indicator says {real}")
        # the checkers agree with the constructors
        bad = [nm for nm, v in (("check_cocycle_condition", n > 24 or ctx.call("cocycle", gp.check_cocycle_condition, lr, om)),
                                ("is_matrix_group", ctx.call("is_matrix_group", gp.is_matrix_group, lr))) if not v]
        for x in irr:
            bad += ["check_spacegroup_representation"] * (not ctx.call("check_sg", rp.check_spacegroup_representation, lr, lt, np.asarray(kd), x))
            bad += ["is_unitary"] * (not ctx.call("is_unitary", rp.is_unitary, x))
        for x in co:
            bad += ["is_representation"] * (not ctx.call("is_rep", rp.is_representation, x, T, om))
        ctx.check(not bad, what + f"refused by {sorted(set(bad))}")
        for a, x in enumerate(ans[0][1]):
            ctx.check(np.abs(x - ctx.call("character", rp.get_character, np.asarray(irr[a]))).max() < 1e-8, what + "get_character is not the trace")
        if n > 1:
            ctx.sig("chain", case["h"], kind, n, tuple(sorted(x.shape[1] for x in irr)))
    ctx.note(lambda: dict(case=case, k=np.round(k, 4).tolist(), little=n))


def sgn(U, V):
    s = np.einsum("iab,iab->i", U.conj(), V) / 2
    if np.abs(np.abs(s) - 1).max() > 1e-5 or np.abs(s.imag).max() > 1e-5:
        return None
    return np.sign(s.real)


def compare_spin(ctx, what, answers, T):
    """answers: (name, characters or None, signs, spin rotations)"""
    n0, C0, z0, U0 = answers[0]
    for nm, C, z, U in answers[1:]:
        s = sgn(U0, U)
        if s is None:
            ctx.fail(f"{what}{n0} and {nm} assign different spin rotations")
            continue
        ctx.check(np.abs(np.asarray(z) - np.asarray(z0) * s[:, None] * s[None, :] * s[T]).max() < 1e-6, f"{what}{n0} and {nm} return different signs")
        if C is not None and C0 is not None:
            ctx.check(oracle.same_charset(C0 * s[None], C, tol=1e-5), f"{what}{n0} and {nm} return different sets of representations ({len(C0)} and {len(C)})")
        ctx.count("compared:" + nm)


def run_spinor(case, ctx, rng):
    import spgrep
    from spgrep.spinor import enumerate_spinor_small_representations, get_spinor_factor_system, get_spinor_unitary_rotation
    from spgrep.corep import enumerate_spinor_small_corepresentations, get_corep_spinor_factor_system
    R, t = gen.prim(case["h"])
    R, t, _, _ = rand_presentation(R, t, rng)
    L = gen.metric_lattice(R, rng)
    N = len(R)
    for q in range(2):
        kind = gen.K_KINDS[rng.integers(len(gen.K_KINDS))] if q else "special"
        k = gen.kpoint(R, rng, kind)
        g = oracle.little(R, k)
        if g is None:
            ctx.skip("k too close to call")
            continue
        n = len(g)
        what = f"spinor hall {case['h']} k={np.round(k, 4).tolist()}: "
        m = [METHODS[i] for i in rng.integers(0, 2, 5)]
        irr, z, U, mp = oracle.as_tuple(ctx.call("primitive_spinor_irreps", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, kpoint=k, method=m[0]), 4, "result")
        if list(mp) != g.tolist():
            ctx.fail(what + "wrong little group")
            continue
        lr, lt = R[g], t[g]
        T = oracle.table(lr)
        ch = lambda x: oracle.chars(oracle.as_reps(x, n))
        A = lambda x, sh: oracle.as_array(x, "array", sh)
        ans = [("the entry point", ch(irr), A(z, (n, n)), A(U, (n, 2, 2)))]
        i2, z2, U2 = oracle.as_tuple(ctx.call("enumerate_spinor", enumerate_spinor_small_representations, L, lr, lt, k, method=m[1]), 3, "result")
        ans.append(("small spinor representations", ch(i2), A(z2, (n, n)), A(U2, (n, 2, 2))))
        z3, U3 = oracle.as_tuple(ctx.call("spin_factor", get_spinor_factor_system, L, lr), 2, "result")
        ans.append(("get_spinor_factor_system", None, A(z3, (n, n)), A(U3, (n, 2, 2))))
        U4 = np.array([A(ctx.call("unitary_rotation", get_spinor_unitary_rotation, L, r), (2, 2)) for r in lr])
        ans.append(("get_spinor_unitary_rotation", None, np.einsum("iab,jbc,ijdc,da->ij", U4, U4, U4[T].conj(), np.eye(2)) / 2, U4))
        zero = np.zeros(N, int)
        i5, ind5, z5, U5, fl5, mp5 = oracle.as_tuple(ctx.call("primitive_corep", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, zero, kpoint=k, method=m[2]), 6, "result")
        ctx.check(list(mp5) == g.tolist() and not np.any(fl5), what + "without time reversal the magnetic request lists other or anti-linear operations")
        ans.append(("the magnetic request without time reversal", ch(i5), A(z5, (n, n)), A(U5, (n, 2, 2))))
        i6, ind6, z6, U6, fl6 = oracle.as_tuple(ctx.call("enumerate_corep", enumerate_spinor_small_corepresentations, L, lr, lt, zero[g], k, method=m[3]), 5, "result")
        ans.append(("small co-representations without time reversal", ch(i6), A(z6, (n, n)), A(U6, (n, 2, 2))))
        z7, U7, fl7 = oracle.as_tuple(ctx.call("corep_factor", get_corep_spinor_factor_system, L, lr, zero[g]), 3, "result")
        ans.append(("get_corep_spinor_factor_system without time reversal", None, A(z7, (n, n)), A(U7, (n, 2, 2))))
        compare_spin(ctx, what, ans, T)
        # grey group: same operations with and without time reversal, the unitary half is the ordinary group
        if np.abs(2 * k - np.rint(2 * k)).max() < 1e-9 or rng.integers(2):
            G = np.concatenate([R, R]), np.concatenate([t, t]), np.repeat([0, 1], N)
            p = rng.permutation(2 * N)
            G = [x[p] for x in G]
            i8, ind8, z8, U8, fl8, mp8 = oracle.as_tuple(ctx.call("grey", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, *G, kpoint=k, method=m[4]), 6, "result")
            mp8 = np.asarray(mp8)
            half = [a for a in range(len(mp8)) if p[mp8[a]] < N]
            src = p[mp8[half]]
            if sorted(src.tolist()) != g.tolist():
                ctx.fail(what + "the grey group has another unitary little group")
            else:
                o = [g.tolist().index(i) for i in src]
                s = sgn(ans[0][3][o], A(U8, (len(mp8), 2, 2))[half])
                if s is None:
                    ctx.fail(what + "the grey group assigns other spin rotations")
                else:
                    C8 = oracle.chars(oracle.as_reps(i8, len(mp8)))[:, half] * s[None]
                    C0 = ans[0][1][:, o]
                    M = (C8 @ C0.conj().T) / n
                    Z = np.rint(M.real)
                    ok = np.abs(M - Z).max() < 1e-5 and (Z >= 0).all() and np.abs(Z @ C0 - C8).max() < 1e-5 and (Z.sum(axis=0) > 0).all()
                    ctx.check(ok, what + "unitary parts of the co-representations of the grey group are no sums of the spinor representations")
                    if ok and len(mp8) == 2 * n:
                        # every spinor representation is in exactly one co-representation; at 2k = 0 a real one (indicator -1 for spin 1/2) pairs accordingly
                        ctx.check((np.count_nonzero(Z, axis=0) == 1).all(), what + "a spinor representation occurs in two co-representations of the grey group")
                    ctx.count("compared:grey group")
        if n > 1:
            ctx.sig("spinor", case["h"], kind, n, tuple(sorted(x.shape[1] for x in irr)))
    ctx.note(lambda: dict(case=case, k=np.round(k, 4).tolist(), little=n))


def run_point(case, ctx, rng):
    import spgrep
    from spgrep import irreps as ir, representation as rp
    from spgrep.spinor import enumerate_spinor_small_representations
    R = pgroup(case["h"], rng, big=True)
    n = len(R)
    T = oracle.table(R)
    t0, k0 = np.zeros((n, 3)), np.zeros(3)
    L = gen.metric_lattice(R, rng)
    what = f"point group of hall {case['h']} ({n}): "
    M = lambda: dict(method=METHODS[rng.integers(2)])
    one = np.ones((n, n), complex)
    for real in (False, True):
        kw = dict(real=True) if real else {}
        ch = lambda x: oracle.chars(oracle.as_reps(x, n))
        a = ctx.call("pointgroup_irreps", spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, R, **M(), **kw)
        b, mp = oracle.as_tuple(ctx.call("primitive_irreps", spgrep.get_spacegroup_irreps_from_primitive_symmetry, R, t0, k0, **M(), **kw), 2, "result")
        c, ic = oracle.as_tuple(ctx.call("unitary_irreps", ir.enumerate_unitary_irreps, R, **M(), **kw), 2, "result")
        d, id_ = oracle.as_tuple(ctx.call("unitary_irreps", ir.enumerate_unitary_irreps, R, one, **M(), **kw), 2, "result")
        e, ie = oracle.as_tuple(ctx.call("small_representations", ir.enumerate_small_representations, R, t0, k0, **M(), **kw), 2, "result")
        ctx.check(list(mp) == list(range(n)), what + "an operation does not keep the zone centre")
        compare(ctx, what + ("real " if real else ""), [("the point-group entry point", ch(a)), ("the space-group entry point at the zone centre", ch(b)), ("enumerate_unitary_irreps", ch(c))])
        compare(ctx, what + ("real, indicators " if real else "indicators "), [("enumerate_unitary_irreps", with_ind(ch(c), ic)), ("with unit factor system", with_ind(ch(d), id_)), ("enumerate_small_representations", with_ind(ch(e), ie))])
    r1 = oracle.as_array(ctx.call("regular", rp.get_regular_representation, R), "regular representation", (n, n, n))
    r2 = oracle.as_array(ctx.call("regular_projective", rp.get_projective_regular_representation, R, one), "regular representation", (n, n, n))
    ctx.check(np.abs(r1 - r2).max() == 0, what + "regular representation and projective one with unit factor system differ")
    c = ctx.call("decompose", ir.decompose_representation, r1.astype(complex))
    f = ctx.call("from_regular", ir.enumerate_unitary_irreps_from_regular_representation, r1.astype(complex))
    compare(ctx, what, [("the point-group entry point", oracle.chars(oracle.as_reps(ctx.call("pointgroup_irreps", spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, R), n))),
                        ("decomposition of the regular representation", oracle.chars(oracle.as_reps(c, n))), ("the regular representation", oracle.chars(oracle.as_reps(f, n)))])
    # spin
    A = lambda x, sh: oracle.as_array(x, "array", sh)
    ch = lambda x: oracle.chars(oracle.as_reps(x, n))
    a, za, Ua = oracle.as_tuple(ctx.call("pointgroup_spinor", spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, R, **M()), 3, "result")
    b, zb, Ub, mp = oracle.as_tuple(ctx.call("primitive_spinor_irreps", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t0, **M()), 4, "result")
    c, zc, Uc = oracle.as_tuple(ctx.call("enumerate_spinor", enumerate_spinor_small_representations, L, R, **M()), 3, "result")
    d, _, zd, Ud, _ = oracle.as_tuple(ctx.call("pointgroup_corep", spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, R, np.zeros(n, int), **M()), 5, "result")
    compare_spin(ctx, what, [("the point-group spinor entry point", ch(a), A(za, (n, n)), A(Ua, (n, 2, 2))), ("the space-group one at the zone centre", ch(b), A(zb, (n, n)), A(Ub, (n, 2, 2))),
                             ("enumerate_spinor_small_representations", ch(c), A(zc, (n, n)), A(Uc, (n, 2, 2))), ("the magnetic one without time reversal", ch(d), A(zd, (n, n)), A(Ud, (n, 2, 2)))], T)
    # magnetic point groups through both entry points: a random unitary subgroup of index two, or grey
    if n % 2 == 0 and rng.integers(3):
        c1 = [x for x in ch(ctx.call("pointgroup_irreps", spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, R)) if np.abs(np.abs(x.real) - 1).max() < 1e-6]
        x = c1[rng.integers(len(c1))]
        Rm, tr = R, (x.real < 0).astype(int)
    else:
        Rm, tr = np.concatenate([R, R]), np.repeat([0, 1], n)
    q = len(Rm)
    Tm = oracle.table(Rm, tr)
    if Tm is not None:
        a, ia, za, Ua, fa = oracle.as_tuple(ctx.call("pointgroup_corep", spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, Rm, tr, **M()), 5, "result")
        b, ib, zb, Ub, fb, mp = oracle.as_tuple(ctx.call("primitive_corep", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, Rm, np.zeros((q, 3)), tr, **M()), 6, "result")
        s = sgn(A(Ua, (q, 2, 2)), A(Ub, (q, 2, 2)))
        if s is None:
            ctx.fail(what + "magnetic entry points assign different spin rotations")
        else:
            u = tr == 0
            ctx.check(np.abs(A(zb, (q, q)) - A(za, (q, q)) * s[:, None] * s[None] * s[Tm]).max() < 1e-6, what + "magnetic entry points return different signs")
            ca, cb = oracle.chars(oracle.as_reps(a, q))[:, u] * s[u][None], oracle.chars(oracle.as_reps(b, q))[:, u]
            if u.all():
                ia, ib = np.zeros(len(ca)), np.zeros(len(cb))
            ctx.check(len(ia) == len(ca) and len(ib) == len(cb) and oracle.same_charset(with_ind(ca, ia), with_ind(cb, ib)), what + "magnetic entry points return different representations or indicators")
            ctx.check(np.array_equal(np.asarray(fa, bool), np.asarray(fb, bool)), what + "magnetic entry points flag different operations")
            ctx.count("compared:magnetic point group")
    if n > 1:
        ctx.sig("point", case["h"], case["r"], n, q)
    ctx.note(lambda: dict(case=case, order=n, magnetic=q))


def run_crystal(case, ctx, rng):
    """structure entry points against requests made with the operations they return, reduced by hand"""
    import spgrep
    L, pos, num = make_crystal(case, rng)
    c = gen.variant(L, pos, num, case["v"], rng)
    if c is None or len(c[1]) > 120:
        ctx.skip("no cell")
        return
    L, pos, num, _ = c
    mg = np.zeros(len(num))
    ds = dataset((L, pos, num), 1e-5)
    if ds is None:
        ctx.skip("spglib finds no symmetry")
        return
    R0 = ds["rotations"].astype(int)
    for q in range(2):
        k = gen.kpoint(R0, rng, "special" if q else gen.K_KINDS[rng.integers(len(gen.K_KINDS))])
        kk, B = recip(L, k, rng)
        kw = {} if B is None else dict(reciprocal_lattice=B)
        what = f"{case} k={np.round(k, 4).tolist()}: "
        irr, R, t, mp = oracle.as_tuple(ctx.call("crystal_irreps", spgrep.get_spacegroup_irreps, L, pos, num, kk, method=METHODS[rng.integers(2)], **kw), 4, "result")
        R, t, mp = oracle.as_array(R, "rotations", kind="int"), oracle.as_array(t, "translations"), oracle.as_array(mp, "mapping", kind="int")
        E = (R == oracle.I3).all(axis=(1, 2))
        P = gen.lattice_basis([x for x in t[E]])
        if np.linalg.det(P) * np.linalg.det(L) < 0 and rng.integers(2):
            P = -P
        rp, tp = gen.conj(P, R, t)
        if np.abs(np.einsum("ab,ibc,cd->iad", np.linalg.inv(P), R, P) - rp).max() > 1e-6:
            ctx.fail(what + "returned rotations do not keep the returned lattice")
            continue
        keep = gen.dedup(rp, tp)
        code = {rp[i].tobytes(): a for a, i in enumerate(keep)}
        to = np.array([code[r.tobytes()] for r in rp])
        kp = P.T @ k
        if oracle.little(rp[keep], kp, lo=1e-9, hi=1e-6) is None:
            ctx.skip("k too close to call")
            continue
        d = tp - tp[keep][to]
        if np.abs(d - np.rint(d)).max() > 1e-4:
            ctx.skip("operations found by spglib do not form a group")
            continue
        first, tk = rp[keep], tp[keep] - np.rint(tp[keep]) * E[keep][:, None]
        d = tp - tk[to]
        pr, pmp = oracle.as_tuple(ctx.call("primitive_irreps", spgrep.get_spacegroup_irreps_from_primitive_symmetry, first, tk, kp, method=METHODS[rng.integers(2)]), 2, "result")
        back = {int(i): a for a, i in enumerate(pmp)}
        if [i for i in range(len(R)) if int(to[i]) in back] != mp.tolist():
            ctx.fail(what + "the structure entry point lists another little group than the request with its operations")
            continue
        cols = [back[int(to[i])] for i in mp]
        ph = np.exp(-2j * np.pi * (d[mp] @ kp))
        Cp = oracle.chars(oracle.as_reps(pr, len(pmp)))[:, cols] * ph[None]
        Cc = oracle.chars(oracle.as_reps(irr, len(mp)))
        ctx.check(oracle.same_charset(Cp, Cc, tol=1e-3), what + "the structure entry point and the request with its operations return different representations")
        ctx.count("compared:crystal")
        if q:
            # spinor, and magnetic with zero moments, of the same cell
            v = ctx.call("crystal_spinor", spgrep.get_spacegroup_spinor_irreps, L, pos, num, None, kk, method=METHODS[rng.integers(2)], **kw)
            si, sz, sU, sR, st, smp = oracle.as_tuple(v, 6, "result")
            if list(smp) != mp.tolist() or not np.array_equal(sR, R):
                ctx.fail(what + "the ordinary and the spinor request return different operations")
                continue
            n = len(mp)
            lp = P.T @ L
            v = ctx.call("primitive_spinor_irreps", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, lp, first, tk, kpoint=kp, method=METHODS[rng.integers(2)])
            pi, pz, pU, pmp2 = oracle.as_tuple(v, 4, "result")
            sU = oracle.as_array(sU, "unitary rotations", (n, 2, 2))
            if list(pmp2) != list(pmp):
                ctx.fail(what + "the ordinary and the spinor request with the same operations list different little groups")
                continue
            s = sgn(np.asarray(pU)[cols], sU)
            if s is None:
                ctx.fail(what + "spin rotations of the structure entry point and of the request with its operations differ")
                continue
            Cp = oracle.chars(oracle.as_reps(pi, len(pmp)))[:, cols] * ph[None] * s[None]
            Cs = oracle.chars(oracle.as_reps(si, n))
            ctx.check(oracle.same_charset(Cp, Cs, tol=1e-3), what + "the spinor structure entry point and the request with its operations return different representations")
            ctx.check(np.abs(oracle.as_array(sz, "signs", (n, n)) - np.asarray(pz)[np.ix_(cols, cols)] * s[:, None] * s[None] * s[oracle.conv_table(R[mp], t[mp])[0]]).max() < 1e-6, what + "the spinor structure entry point returns other signs")
            ctx.count("compared:crystal spinor")
            if np.linalg.det(L) > 0 and dataset((L, pos, num, mg), 1e-5, mag=True) is None:
                ctx.skip("spglib finds no magnetic symmetry")
            elif np.linalg.det(L) > 0:
                v = ctx.call("crystal_corep", spgrep.get_spacegroup_spinor_irreps, L, pos, num, mg, kk, method=METHODS[rng.integers(2)], **kw)
                gi, gz, gU, gf, gR, gt, gtr, gmp = oracle.as_tuple(v, 8, "result")
                gR, gt, gtr, gmp = np.asarray(gR), np.asarray(gt), np.asarray(gtr).astype(int), np.asarray(gmp)
                uni = [a for a in range(len(gmp)) if gtr[gmp[a]] == 0]
                src = []
                for a in uni:
                    dd = gt[gmp[a]] - t
                    w = np.where((R == gR[gmp[a]]).all(axis=(1, 2)) & (np.abs(dd - np.rint(dd)).max(axis=1) < 1e-4))[0]
                    src.append(int(w[0]) if len(w) == 1 and int(w[0]) in set(mp.tolist()) else -1)
                if sorted(src) != mp.tolist():
                    ctx.fail(what + "with zero moments the operations without time reversal that keep k are not those of the non-magnetic request")
                    continue
                o = [mp.tolist().index(i) for i in src]
                sh = np.exp(-2j * np.pi * ((gt[gmp[uni]] - t[src]) @ k))
                s = sgn(sU[o], oracle.as_array(gU, "unitary rotations", (len(gmp), 2, 2))[uni])
                if s is None:
                    ctx.fail(what + "with zero moments the spin rotations differ")
                    continue
                C8 = oracle.chars(oracle.as_reps(gi, len(gmp)))[:, uni] * s[None]
                C0 = Cs[:, o] * sh[None]
                M = C8 @ C0.conj().T / n
                Z = np.rint(M.real)
                ctx.check(np.abs(M - Z).max() < 1e-3 and (Z >= 0).all() and np.abs(Z @ C0 - C8).max() < 1e-2 and (Z.sum(axis=0) > 0).all(),
                          what + "with zero moments the unitary parts are no sums of the spinor representations")
                ctx.count("compared:crystal with zero moments")
        if len(mp) > 1:
            ctx.sig("crystal", case["h"], case["v"], len(mp), tuple(sorted(x.shape[1] for x in irr)))
    ctx.note(lambda: dict(case=case, k=np.round(k, 4).tolist(), little=len(mp)))

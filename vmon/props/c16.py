"""C16: tables, regular representations, factor systems, coset decompositions."""
from .common import *
from .. import groups

RULE = ("one case = one point group / little co-group / magnetic group in a random basis, order and origin: multiplication table, identity, inverses, orders, "
        "(projective) regular representation, little-group factor system (unitary and anti-unitary), coset decomposition; distinct non-trivial = (group, "
        "kind, order of operations, k kind) with more than one operation")
ASSUMPTIONS = ["spglib's database lists the operations of each Hall / UNI number correctly"]


def cases(tier, seed):
    f = 32 if tier == "quick" else 80
    return [dict(t="sg", n=h, r=r) for h in range(1, 531) for r in range(f)] + \
           [dict(t="msg", n=u, r=r) for u in range(1, 1652) for r in range(max(1, f // 4))] + \
           [dict(t="any", n=i, r=r) for i in range(len(groups.NAMES)) for r in range(f // 4)]


def cost(c):
    return 4 if c["t"] == "any" else 1


def run_any(case, ctx, rng):
    """integer matrix groups that are no crystallographic point groups"""
    from spgrep import group as gp
    from spgrep.representation import get_regular_representation, get_projective_regular_representation
    name = groups.NAMES[case["n"]]
    M, T = groups.matrices(name, rng)
    n = len(M)
    what = f"{name} by {M.shape[1]}-dimensional integer matrices: "
    tr = None
    if rng.integers(3) == 0 and 2 * n <= 96:
        # with time reversal: halved, or doubled
        x = groups.halves(T, rng)
        if rng.integers(2) or not x.any():
            M, tr = np.concatenate([M, M]), np.repeat([0, 1], n)
            T = np.block([[T, T + n], [T + n, T]])
            n *= 2
        else:
            tr = x
    check_table(ctx, what, M, tr, rng, T)
    if tr is None and n <= 60:
        X = oracle.as_array(ctx.call("regular", get_regular_representation, M), "regular representation", (n, n, n))
        ctx.check(np.array_equal(X, np.rint(oracle.regular(T, np.ones((n, n))).real)), what + "regular representation wrong")
        c = np.exp(2j * np.pi * rng.random(n))
        z = c[:, None] * c[None, :] / c[T]
        X = oracle.as_array(ctx.call("projective_regular", get_projective_regular_representation, M, z), "regular representation", (n, n, n))
        ctx.check(np.abs(X - oracle.regular(T, z)).max() < 1e-12, what + "projective regular representation wrong")
    elif tr is not None:
        d = ctx.observe("cosets", gp.decompose_by_maximal_space_subgroup, M, np.zeros((n, M.shape[1])), tr)
        if d.exc is not None:
            ctx.fail(what + f"decomposition raised {type(d.exc).__name__}")
        elif tr.any():
            x, y, a0 = oracle.as_tuple(d.value, 3, "decomposition")
            x, y, a0 = oracle.as_array(x, "indices", kind="int"), oracle.as_array(y, "indices", kind="int"), int(a0)
            ok = sorted(x.tolist()) == np.where(tr == 0)[0].tolist() and 0 <= a0 < n and tr[a0] != 0 and len(y) == len(x) and np.array_equal(T[x, a0], y)
            ctx.check(ok, what + "wrong coset decomposition")
    ctx.count("general_groups")
    if n > 1:
        ctx.sig("any", name, M.shape[1], tr is not None, int(np.abs(M).max()), int(T[0, -1]))
    ctx.note(lambda: dict(case=case, group=name, order=n, dim=M.shape[1], time_reversal=tr is not None))


def check_table(ctx, what, R, tr, rng, T=None):
    from spgrep import group as gp
    n = len(R)
    T = oracle.table(R, tr) if T is None else T
    trd = tr if tr is None or rng.integers(2) else tr.astype([np.int32, bool, np.int64][rng.integers(3)])
    args = (R,) if tr is None else (R, trd)
    if tr is not None and rng.integers(2):
        X = ctx.call("cayley", gp.get_cayley_table, R, time_reversals=trd)
    else:
        X = ctx.call("cayley", gp.get_cayley_table, *args)
    X = oracle.as_array(X, "table", (n, n), kind="int")
    if not ctx.check(np.array_equal(X, T), what + "multiplication table wrong"):
        return T
    e = groups.identity(T)
    x = ctx.call("identity", gp.get_identity_index, X)
    ctx.check(int(x) == e, what + f"identity {x}, expected {e}")
    for i in rng.permutation(n)[:8]:
        x = int(ctx.call("inverse", gp.get_inverse_index, X, int(i)))
        ctx.check(0 <= x < n and T[i, x] == e and T[x, i] == e, what + f"inverse of {i} is not {x}")
        o, c = 1, int(i)
        while c != e:
            c = int(T[c, i])
            o += 1
        x = int(ctx.call("order", gp.get_order, X, int(i)))
        ctx.check(x == o, what + f"order of {i} given as {x}, expected {o}")
    return T


def run(case, ctx):
    from spgrep import group as gp
    from spgrep.representation import get_regular_representation, get_projective_regular_representation
    rng = seeded(case, ctx)
    if case["t"] == "any":
        return run_any(case, ctx, rng)
    nn = case["n"]
    if case["t"] == "sg":
        R, t, tr, _ = rand_presentation(*gen.prim(nn), rng, big=16)
    else:
        a = gen.mprim(nn)
        R, t, tr, _ = rand_presentation(a[0], a[1], rng, a[2], big=16)
    n = len(R)
    what = f"{case['t']} {nn}: "
    T = check_table(ctx, what, R, tr, rng)
    if tr is None:
        if n <= 48:
            X = oracle.as_array(ctx.call("regular", get_regular_representation, R), "regular representation", (n, n, n))
            ctx.check(np.array_equal(X, np.rint(oracle.regular(T, np.ones((n, n))).real)), what + "regular representation wrong")
    else:
        d = ctx.observe("cosets", gp.decompose_by_maximal_space_subgroup, R, t, tr)
        if d.exc is not None:
            ctx.fail(what + f"decomposition raised {type(d.exc).__name__}")
        elif not tr.any():
            ctx.check(d.value is None, what + "decomposition returned for a group without time reversal")
        else:
            x, y, a0 = oracle.as_tuple(d.value, 3, "decomposition")
            x, y = oracle.as_array(x, "indices", kind="int"), oracle.as_array(y, "indices", kind="int")
            a0 = int(a0)
            msg = []
            if sorted(x.tolist()) != np.where(tr == 0)[0].tolist():
                msg.append("wrong list of unitary operations")
            if not (0 <= a0 < n) or tr[a0] == 0:
                msg.append(f"representative {a0} has no time reversal")
            elif len(y) != len(x) or not np.array_equal(T[x, a0], y):
                msg.append("wrong pairing of the two halves")
            ctx.check(not msg, what + "; ".join(msg))
            ctx.count("decompositions")
        conv_cosets(ctx, what, nn, rng)
    # little groups: factor system relates projective to small representations
    for q in range(3):
        kind = gen.K_KINDS[rng.integers(len(gen.K_KINDS))]
        k = gen.kpoint(R, rng, kind, tr=tr)
        g = oracle.little(R, k, tr)
        if g is None:
            ctx.skip("k too close to call")
            continue
        lr, lt = R[g], t[g]
        ltr = None if tr is None else tr[g]
        m = len(g)
        lT = oracle.table(lr, ltr)
        om = oracle.as_array(ctx.call("factor_system", gp.get_factor_system_from_little_group, lr, lt, k, **({} if tr is None else dict(little_time_reversals=ltr))),
                             "factor system", (m, m))
        # D(i) = exp(-2 pi i k.t_i) P(i); law of D with lattice phase <=> law of P with om
        ph, _ = oracle.lattice_phase(lr, lt, k, lT)
        u = np.exp(-2j * np.pi * (lt @ k))
        uj = u[None, :] if ltr is None else np.where((ltr != 0)[:, None], u.conj()[None, :], u[None, :])
        # D_i D_j^(*) = u_i uj P_i P_j^(*) = u_i uj om P_ij = u_i uj om / u_ij D_ij  must equal ph D_ij
        w = u[:, None] * uj * om / u[lT]
        ctx.check(np.abs(w - ph).max() < 1e-6, what + f"k={np.round(k, 4).tolist()}: factor system does not relate projective and small representations "
                                                      f"({np.abs(w - ph).max():.3g})")
        if tr is None:
            z = om * spin_factor(lr, lT, rng) if rng.integers(2) else om
            X = oracle.as_array(ctx.call("projective_regular", get_projective_regular_representation, lr, z), "regular representation", (m, m, m))
            ctx.check(np.abs(X - oracle.regular(lT, z)).max() < 1e-12, what + "projective regular representation wrong")
            ctx.check(oracle.law_defect(X, lT, z) < 1e-6, what + "projective regular representation violates its product law")
        if m > 1:
            ctx.sig(case["t"], nn, kind, m, int(oracle.codes(lr)[0] % 997))
    ctx.note(lambda: dict(case=case, order=n, little=m))


def conv_cosets(ctx, what, u, rng):
    """the same decomposition listed in the conventional cell (several operations per rotation)"""
    from spgrep.group import decompose_by_maximal_space_subgroup
    R, t, tr = gen.mdb(u)
    if len(R) > 64:
        ctx.skip("more than 64 operations in the conventional cell")
        return
    p = rng.permutation(len(R))
    R, t, tr = R[p], t[p], tr[p]
    if rng.integers(2):
        s = rng.random(3)
        t = t + s - np.einsum("iab,b->ia", R, s)
    t = t + rng.integers(-1, 2, t.shape)
    T, _ = oracle.conv_table(R, t, tr)
    v = ctx.call("cosets", decompose_by_maximal_space_subgroup, R, t, tr)
    if not tr.any():
        ctx.check(v is None, what + "decomposition returned for a group without time reversal")
        return
    x, y, a0 = oracle.as_tuple(v, 3, "decomposition")
    ok = sorted(int(i) for i in x) == np.where(tr == 0)[0].tolist() and tr[int(a0)] != 0 and len(x) == len(y) \
        and np.array_equal(T[np.asarray(x, int), int(a0)], np.asarray(y, int))
    ctx.check(ok, what + "conventional cell: wrong decomposition")
    ctx.count("decompositions_conventional")

"""C07: spinor representations of point groups, primitive space groups and crystal structures."""
from .conv import *

RULE = ("one case = one Hall setting: primitive operations in a random presentation and lattice with several k and both methods, its point group in a random "
        "basis, or a crystal in some cell description; product law with returned signs, completeness, and agreement of signs with returned spin rotations; "
        "distinct non-trivial = (setting, flavour, cell, k kind, method, order, dims) with little group order > 1")
ASSUMPTIONS = ["structures whose symmetry spglib does not identify are skipped and counted"]
CPU_LIMIT = 90
NK = {"quick": 5, "thorough": 9}


def cases(tier, seed):
    f = 4 if tier == "quick" else 16
    out = [dict(t="prim", h=h, r=r) for h in range(1, 531) for r in range(2 * f)]
    out += [dict(t="pg", h=h, r=r) for h in gen.PG_HALLS for r in range(8 * f)]
    V = gen.VARIANTS
    for h in range(1, 531):
        for r in range(2 * f):
            v = V[(h + 3 * r + seed) % len(V)]
            if v == "super" and len(gen._db(h)[0]) > 48:
                v = "shift"
            out.append(dict(t="conv", h=h, v=v, r=r))
    for s in STRUCTURES:
        for v in V:
            out.append(dict(t="conv", s=s, v=v, r=0))
    return out


def uz_msgs(z, U, T, what):
    V = np.matmul(U[:, None], U[None])
    d = np.abs(V - z[:, :, None, None] * U[T]).max()
    return [f"{what}spin rotations do not multiply with the returned signs: {d:.3g}"] if d > 1e-5 else []


def run(case, ctx):
    import spgrep
    from spgrep.spinor import enumerate_spinor_small_representations
    rng = seeded(case, ctx)
    if case["t"] == "conv":
        return run_conv(case, ctx, rng)
    if case["t"] == "pg":
        R = gen.pointgroup(case["h"]) if rng.integers(2) else gen.pointgroup_conv(case["h"])
        R, t, _, _ = gen.present(R, np.zeros((len(R), 3)), rng, basis=int(rng.choice([0, 1, 3])), perm=bool(rng.integers(2)))
        ks = [np.zeros(3)]
        kinds = ["pg"]
    else:
        R, t = gen.prim(case["h"])
        R, t, _, _ = rand_presentation(R, t, rng, big=16)
        kinds = ["special"] + [gen.K_KINDS[(case["r"] * 4 + q + case["h"]) % len(gen.K_KINDS)] for q in range(NK[ctx.tier] - 1)]
        ks = [gen.kpoint(R, rng, kd) for kd in kinds]
    L = gen.metric_lattice(R, rng)
    if rng.integers(4) == 0:
        L = L * (1 + rng.normal(size=(3, 3)) * 1e-8)
    for kind, k in zip(kinds, ks):
        exp = oracle.little(R, k)
        if exp is None:
            ctx.skip("k too close to call")
            continue
        for method in METHODS:
            kw = group_kw(rng, len(R))
            what = f"{case['t']} hall {case['h']} k={np.round(k, 4).tolist()} {method}: "
            Rd, td, kd = dress(R, t, k, rng)
            if case["t"] == "pg":
                if rng.integers(2):
                    v = ctx.call("pointgroup_spinor_irreps", spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, Rd, method=method, **kw)
                else:
                    v = ctx.call("spinor_small_representations", enumerate_spinor_small_representations, L, Rd, method=method, **kw)
                irr, z, U = oracle.as_tuple(v, 3, "result")
                mp = exp
            elif rng.integers(3):
                nokp = kind == "gamma" and np.abs(k).max() == 0 and rng.integers(2)
                v = ctx.call("primitive_spinor_irreps", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, Rd, td,
                             **({} if nokp else dict(kpoint=kd)), method=method, **kw)
                irr, z, U, mp = oracle.as_tuple(v, 4, "result")
            else:
                v = ctx.call("spinor_small_representations", enumerate_spinor_small_representations, L, R[exp], t[exp], k, method=method, **kw)
                irr, z, U = oracle.as_tuple(v, 3, "result")
                mp = exp
            if list(mp) != exp.tolist():
                ctx.fail(what + "wrong little group")
                return
            n = len(mp)
            reps = oracle.as_reps(irr, n)
            z = oracle.as_array(z, "factor system", (n, n))
            U = oracle.as_array(U, "unitary rotations", (n, 2, 2))
            T = oracle.table(R[mp])
            msgs = oracle.small_rep_msgs(reps, R[mp], t[mp], np.asarray(k, float), z=z, T=T, what=what)
            msgs += oracle.complete_msgs(reps, n, what)
            msgs += oracle.spin_msgs(L, R[mp], z, U, noise=1e-7, T=T)
            ctx.check(not msgs, what + "; ".join(msgs[:4]))
            ctx.count("matrix_products_checked", len(reps) * n * n)
            if n > 1:
                ctx.sig(case["t"], case["h"], kind, method, n, tuple(sorted(m.shape[1] for m in reps)))
    ctx.note(lambda: dict(case=case, k=np.round(k, 5).tolist(), kind=kind, little=n, dims=[m.shape[1] for m in reps]))


def run_conv(case, ctx, rng):
    import spgrep
    L, pos, num = make_crystal(case, rng)
    c = gen.variant(L, pos, num, case["v"], rng)
    if c is None or len(c[1]) > 200:
        ctx.skip("no cell")
        return
    L, pos, num, _ = c
    sp = None
    if rng.integers(5) == 0:
        pos, sp = loosen(L, pos, num, rng, ctx)
    ds = dataset((L, pos, num), sp or 1e-5)
    if ds is None:
        ctx.skip("spglib finds no symmetry")
        return
    R0 = ds["rotations"].astype(int)
    kinds = [gen.K_KINDS[rng.integers(len(gen.K_KINDS))] for _ in range(2 if len(R0) <= 48 else 1)] + ["special"]
    for kind in kinds:
        k = gen.kpoint(R0, rng, kind)
        kk, B = recip(L, k, rng)
        kw = {} if B is None else dict(reciprocal_lattice=B)
        if sp:
            kw["symprec"] = sp
        if rng.integers(2):
            kw["method"] = METHODS[rng.integers(2)]
        Ld, pd, nd, kd = dress_cell(L, pos, num, kk, rng)
        v = ctx.call("crystal_spinor_irreps", spgrep.get_spacegroup_spinor_irreps, Ld, pd, nd, kpoint=kd, **kw)
        irreps, z, U, R, t, mp = oracle.as_tuple(v, 6, "result")
        what = f"{case} {ds['international']} k={np.round(k, 4).tolist()} {kw.get('method', '')}: "
        msgs = ops_msgs(R, t, ds)
        if not msgs:
            msgs = conv_msgs(irreps, R, t, mp, k, ctx, z=z, what=what)
            if msgs is None:
                continue
            lr = np.asarray(R).astype(int)[mp]
            m = len(mp)
            U = oracle.as_array(U, "unitary rotations", (m, 2, 2))
            z = oracle.as_array(z, "factor system", (m, m))
            T, _ = oracle.conv_table(lr, np.asarray(t)[mp])
            msgs += uz_msgs(z, U, T, what)
            C = oracle.cart(L, lr)
            for i in range(m):
                if np.abs(oracle.adjoint(U[i]) - C[i] * np.sign(np.linalg.det(C[i]))).max() > 1e-4:
                    msgs.append(f"{what}spin rotation {i} does not belong to operation {mp[i]}")
                    break
        ctx.check(not msgs, "; ".join(msgs[:4]))
        ctx.count("cell:" + case["v"])
        if len(mp) > 1:
            ctx.sig("conv", case.get("h", case.get("s")), case["v"], kind, len(mp), tuple(sorted(m.shape[1] for m in irreps)))

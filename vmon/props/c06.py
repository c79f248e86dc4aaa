"""C06: spin rotations and sign factor systems."""
from .common import *

RULE = ("one case = one point group (or magnetic point group of a UNI number) in a random basis and order, in lattices of random metric, orientation, "
        "scale and handedness, exact or with relative noise up to 1e-6; all matrices and all pairs judged; distinct non-trivial = "
        "(group, lattice kind, noise, basis) with more than one operation")
ASSUMPTIONS = ["noise above 1e-6 (relative) is not judged"]
KIND = ["rand", "std", "small", "large", "left", "axis"]


def cases(tier, seed):
    f = 48 if tier == "quick" else 200
    out = [dict(t="pg", n=h, r=r) for h in gen.PG_HALLS for r in range(f * 2)]
    us = range(1, 1652)
    out += [dict(t="mpg", n=u, r=r) for u in us for r in range(3 if tier == "quick" else 8)]
    out += [dict(t="entry", n=h, r=r) for h in range(1, 531, 3) for r in range(4 if tier == "quick" else 8)]
    return out


def lattice(R, rng, kind):
    if kind != "axis":
        return gen.metric_lattice(R, rng, kind)
    # two-fold axes along exact Cartesian directions / signs: orthogonalised, then permuted and reflected pairs of axes
    L = gen.metric_lattice(R, rng, "std")
    Q = np.eye(3)[rng.permutation(3)] * rng.choice([-1, 1], 3)[:, None]
    return L @ Q


def run(case, ctx):
    import spgrep
    from spgrep.spinor import get_spinor_factor_system, get_spinor_unitary_rotation, get_rotation_angle_and_axis
    from spgrep.corep import get_corep_spinor_factor_system
    rng = seeded(case, ctx)
    if case["t"] == "entry":
        return run_entry(case, ctx, rng)
    tr = None
    if case["t"] == "pg":
        R = gen.pointgroup(case["n"]) if rng.integers(2) else gen.pointgroup_conv(case["n"])
    else:
        R, t, tr = gen.mprim(case["n"]) if rng.integers(2) else gen.mdb(case["n"])
        keep = gen.dedup(R, t, tr)
        R, tr = R[keep], tr[keep]
    R, _, tr, info = gen.present(R, np.zeros((len(R), 3)), rng, tr=tr, basis=int(rng.choice([0, 0, 1, 3])), perm=bool(rng.integers(2)))
    for kind in (KIND if case["t"] == "pg" else [KIND[rng.integers(len(KIND))] for _ in range(2)]):
        L = lattice(R, rng, kind)
        noise = float(rng.choice([0, 0, 1e-12, 1e-9, 1e-7, 1e-6]))
        scale = np.abs(L).max()
        L = L + rng.normal(size=(3, 3)) * noise * scale / 10
        cond = np.linalg.cond(L)
        what = f"{case['t']} {case['n']} lattice {kind} noise {noise}: "
        Rd = R.astype(np.int32) if rng.integers(4) == 0 else R
        if tr is None:
            v = ctx.call("spinor_factor_system", get_spinor_factor_system, L, Rd)
            z, U = oracle.as_tuple(v, 2, "result")
            flags = None
        else:
            v = ctx.call("corep_factor_system", get_corep_spinor_factor_system, L, Rd, tr)
            z, U, flags = oracle.as_tuple(v, 3, "result")
            flags = oracle.as_array(flags, "anti-linear flags", (len(R),))
            ctx.check(np.array_equal(flags.astype(bool), tr != 0), what + "anti-linear flags wrong")
        msgs = oracle.spin_msgs(L, R, z, U, tr, noise=noise * cond)
        ctx.count("pairs_judged", len(R) ** 2)
        # documented angle/axis of single rotations
        C = oracle.cart(L, R)
        for i in rng.choice(len(R), min(3, len(R)), replace=False):
            c = C[i] * np.sign(np.linalg.det(C[i]))
            th, ax = oracle.as_tuple(ctx.call("angle_axis", get_rotation_angle_and_axis, c), 2, "angle, axis")
            ax = oracle.as_array(ax, "axis", (3,))
            K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
            rod = np.eye(3) + np.sin(th) * K + (1 - np.cos(th)) * K @ K
            tol = 1e-6 + 200 * noise * cond
            if not (-1e-12 <= th <= np.pi + 1e-12) or abs(np.linalg.norm(ax) - 1) > tol or np.abs(rod - c).max() > tol:
                msgs.append(f"angle {th:.6g} and axis {ax.tolist()} do not give the rotation back")
            u = oracle.as_array(ctx.call("unitary_rotation", get_spinor_unitary_rotation, L, Rd[i]), "spin rotation", (2, 2))
            if np.abs(oracle.adjoint(u) - c).max() > tol:
                msgs.append(f"single spin rotation {i} does not cover the rotation")
            ui = U[i] @ oracle.THETA.conj().T if tr is not None and tr[i] else U[i]
            if np.abs(u - ui).max() > tol:
                msgs.append(f"spin rotation {i} is not the one of get_spinor_unitary_rotation")
        ctx.check(not msgs, what + "; ".join(msgs[:4]))
        if len(R) > 1:
            ctx.sig(case["t"], case["n"], kind, noise, None if info["P"] is None else info["P"].tobytes().hex()[:12])
    ctx.note(lambda: dict(case=case, order=len(R), lattice=np.round(L, 4).tolist(), noise=noise))


def run_entry(case, ctx, rng):
    """spin rotations and signs as returned by the space-group and point-group entry points"""
    import spgrep
    R, t = gen.prim(case["n"])
    R, t, _, _ = rand_presentation(R, t, rng)
    L = lattice(R, rng, KIND[rng.integers(len(KIND))])
    k = gen.kpoint(R, rng)
    v = ctx.call("primitive_spinor_irreps", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t, kpoint=k)
    irr, z, U, mp = oracle.as_tuple(v, 4, "result")
    mp = oracle.as_array(mp, "mapping", kind="int")
    msgs = oracle.spin_msgs(L, R[mp], z, U)
    ctx.check(not msgs, f"primitive spinor entry hall {case['n']}: " + "; ".join(msgs[:4]))
    R = gen.pointgroup(case["n"])
    L = lattice(R, rng, KIND[rng.integers(len(KIND))])
    v = ctx.call("pointgroup_spinor_irreps", spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, R)
    irr, z, U = oracle.as_tuple(v, 3, "result")
    msgs = oracle.spin_msgs(L, R, z, U)
    ctx.check(not msgs, f"point-group spinor entry hall {case['n']}: " + "; ".join(msgs[:4]))
    # with time reversal: all grey groups
    R2 = np.concatenate([R, R])
    tr = np.repeat([0, 1], len(R))
    p = rng.permutation(len(R2))
    v = ctx.call("pointgroup_corep", spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, R2[p], tr[p])
    irr, ind, z, U, fl = oracle.as_tuple(v, 5, "result")
    msgs = oracle.spin_msgs(L, R2[p], z, U, tr[p])
    if not np.array_equal(np.asarray(fl).astype(bool), tr[p] != 0):
        msgs.append("anti-linear flags wrong")
    ctx.check(not msgs, f"grey point group of hall {case['n']}: " + "; ".join(msgs[:4]))
    ctx.sig("entry", case["n"], case["r"], len(mp))

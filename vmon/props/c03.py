"""C03: exact little groups, all entry points, with and without time reversal, and tolerance sides."""
from .common import *

RULE = ("one case = one space group (Hall setting) or magnetic group (UNI number) in a random presentation with several wave vectors, among them "
        "points displaced from a symmetry element by 1e-12..1e-10 (must stay) and 1e-6..1e-2 (must go), and by amounts far on either side of a "
        "tolerance given by the caller (1e-11..1e-2); membership recomputed for every operation; "
        "distinct non-trivial = (group, k kind, membership pattern) where the little group is a proper subgroup or larger than the identity")
ASSUMPTIONS = ["offsets between 1e-10 and 1e-6 are not judged (documented tolerance 1e-8 lies between)"]
NK = {"quick": 8, "thorough": 12}


def cases(tier, seed):
    f = 10 if tier == "quick" else 24
    out = [dict(t="sg", n=h, r=r) for h in range(1, 531) for r in range(f)]
    us = range(1, 1652)
    out += [dict(t="msg", n=u, r=r) for u in us for r in range(2 if tier == "quick" else 5)]
    out += [dict(t="conv", n=h, r=r) for h in range(1, 531) for r in range(2 if tier == "quick" else 6)]
    return out


def judge(ctx, what, exp, mp, n, ops=None, got=None):
    mp = oracle.as_array(mp, "mapping", kind="int") if len(mp) else np.zeros(0, int)
    ok = mp.tolist() == list(exp)
    ctx.check(ok, f"{what}: little group {mp.tolist()[:60]} expected {list(exp)[:60]}")
    if ok and got is not None:
        for a, b, nm in got:
            same = np.shape(a) == np.shape(b[mp]) and np.array_equal(np.asarray(a), b[mp])
            ctx.check(same, f"{what}: returned little-group {nm} differ from the listed operations")


def run(case, ctx):
    import spgrep
    from spgrep.group import get_little_group
    rng = seeded(case, ctx)
    nk = NK[ctx.tier]
    if case["t"] == "conv":
        return run_conv(case, ctx, rng)
    if case["t"] == "sg":
        R0, t0 = gen.prim(case["n"])
        tr0 = None
    else:
        R0, t0, tr0 = gen.mprim(case["n"])
        nk = max(3, nk // 2)
    exact = (case["r"] + (case["n"] if case["t"] == "msg" else 0)) % 4 == 3   # exact k only: also very oblique bases and translations many cells away
    for q in range(nk):
        if q % 2 == 0:
            R, t, tr, _ = rand_presentation(R0, t0, rng, tr0, big=4 if exact else 0)
            L = gen.metric_lattice(R, rng)
        kind = "special" if q == 0 else gen.K_KINDS[rng.integers(len(gen.K_KINDS))]
        k = gen.kpoint(R, rng, kind, tr=tr)
        off = [0, 0, 1e-12, 1e-11, 2e-6, 1e-5, 1e-4, 1e-2][rng.integers(8)]
        off = 0 if exact else off
        if off:
            d = rng.normal(size=3) if rng.integers(2) else np.eye(3)[rng.integers(3)]
            k = k + off * d / np.abs(d).max()
        if rng.integers(6) == 0:
            k = k + rng.integers(-20, 21, 3) * (50 if exact and rng.integers(4) == 0 else 1)
        exp = oracle.little(R, k, tr, lo=2e-10, hi=1e-6)
        if exp is None:
            ctx.skip("k too close to call")
            continue
        what = f"{case['t']} {case['n']} k={k.tolist()}"
        Rd, td, kd = dress(R, t, k, rng)
        args = [Rd, td, kd]
        if tr is None:
            v = ctx.call("little_group", get_little_group, *args)
        else:
            v = ctx.call("little_group_tr", get_little_group, *args, time_reversals=tr)
        lr, lt, mp = oracle.as_tuple(v, 3, "little group")
        judge(ctx, what, exp, mp, len(R), got=[(lr, R, "rotations"), (lt, t, "translations")])
        if off == 0 or off >= 1e-5:
            if len(exp) <= 16 or q < 2:
                if tr is None:
                    v = ctx.call("primitive_irreps", spgrep.get_spacegroup_irreps_from_primitive_symmetry, Rd, td, kd,
                                 real=bool(rng.integers(2)) and off == 0, method=METHODS[rng.integers(2)])
                    judge(ctx, what + " primitive entry", exp, v[1], len(R))
                if tr is not None or rng.integers(2):
                    v = ctx.call("primitive_spinor_irreps", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, Rd, td,
                                 **({} if tr is None else dict(time_reversals=tr)), kpoint=kd, method=METHODS[rng.integers(2)])
                    judge(ctx, what + " spinor entry", exp, v[-1], len(R))
                    if tr is not None:
                        a = oracle.as_array(v[4], "anti-linear flags", (len(exp),))
                        ctx.check(np.array_equal(a.astype(bool), tr[exp] != 0), what + " anti-linear flags")
        if q == 1 and not exact:
            loose(case, ctx, rng, L, R, t, tr, nk)
        if 1 < len(exp):
            ctx.sig(case["t"], case["n"], kind, len(exp), int(hash(tuple(exp.tolist()))) & 0xFFFF)
        ctx.count(f"offset:{off}")
        ctx.count("operations_judged", len(R))
        ctx.note(lambda: dict(what=what, little=exp.tolist()[:20]))


TOLS = [1e-2, 1e-3, 1e-3, 1e-4, 1e-5, 1e-6, 1e-10, 1e-11]


def tol_request(R, tr, rng, taus=None):
    """(k, atol, expected little group) with k off a symmetry element by far less or far more than atol"""
    at = TOLS[rng.integers(len(TOLS))]
    k = gen.kpoint(R, rng, ["special", "special2", "half", "mixed", "gamma"][rng.integers(5)], tr=tr)
    d = rng.normal(size=3)
    off = at * (0.02 if rng.integers(2) else 200) if at < 5e-3 else at * 0.02
    k = k + off * d / np.abs(d).max()
    return k, at, oracle.little(R, k, tr, taus=taus, lo=at / 3, hi=at * 3)


def loose(case, ctx, rng, L, R, t, tr, n):
    """a tolerance given by the caller decides, in every entry point that takes one"""
    import spgrep
    from spgrep.group import get_little_group
    for _ in range(2):
        k, at, exp = tol_request(R, tr, rng)
        if exp is None:
            ctx.skip("k too close to call")
            continue
        what = f"{case['t']} {case['n']} k={k.tolist()} atol={at}"
        if tr is None:
            v = ctx.call("little_group", get_little_group, R, t, k, at) if rng.integers(2) else ctx.call("little_group", get_little_group, R, t, k, atol=at)
        else:
            v = ctx.call("little_group_tr", get_little_group, R, t, k, at, tr) if rng.integers(2) else \
                ctx.call("little_group_tr", get_little_group, R, t, k, time_reversals=tr, atol=at)
        lr, lt, mp = oracle.as_tuple(v, 3, "little group")
        judge(ctx, what, exp, mp, len(R), got=[(lr, R, "rotations"), (lt, t, "translations")])
        if tr is None:
            v = ctx.call("primitive_irreps", spgrep.get_spacegroup_irreps_from_primitive_symmetry, R, t, k, real=bool(rng.integers(2)), method=METHODS[rng.integers(2)], atol=at)
            judge(ctx, what + " primitive entry", exp, v[1], len(R))
        v = ctx.call("primitive_spinor_irreps", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t,
                     **({} if tr is None else dict(time_reversals=tr)), kpoint=k, method=METHODS[rng.integers(2)], atol=at)
        judge(ctx, what + " spinor entry", exp, v[-1], len(R))
        ctx.count("caller_tolerance")


def run_conv(case, ctx, rng):
    """mapping reported by the crystal-structure entry points (centred cells: primitive reciprocal lattice)"""
    import spglib
    import spgrep
    h = case["n"]
    L, pos, num = gen.crystal(h, rng, norb=2 if len(gen._db(h)[0]) <= 48 else 1, special=len(gen._db(h)[0]) > 48)
    L2, p2, n2, _ = gen.variant(L, pos, num, ["std", "shift", "perm"][rng.integers(3)], rng)
    ds = spglib.get_symmetry_dataset((L2, p2, n2), symprec=1e-5)
    if ds is None:
        ctx.skip("spglib finds no symmetry")
        return
    R, t = ds["rotations"].astype(int), ds["translations"]
    taus = t[(R == oracle.I3).all(axis=(1, 2))]
    for q in range(2):
        kind = gen.K_KINDS[rng.integers(len(gen.K_KINDS))]
        k = gen.kpoint(R, rng, kind)
        exp = oracle.little(R, k, taus=np.rint(taus * 24) / 24 if np.abs(taus * 24 - np.rint(taus * 24)).max() < 1e-6 else taus,
                            lo=1e-9)
        if exp is None:
            ctx.skip("k too close to call")
            continue
        what = f"crystal of hall {h} k={np.round(k, 5).tolist()}"
        if q == 0:
            v = ctx.call("crystal_irreps", spgrep.get_spacegroup_irreps, L2, p2, n2, k)
            irr, R_, t_, mp = oracle.as_tuple(v, 4, "result")
        else:
            v = ctx.call("crystal_spinor_irreps", spgrep.get_spacegroup_spinor_irreps, L2, p2, n2, kpoint=k)
            R_, t_, mp = v[-3], v[-2], v[-1]
        if not (np.array_equal(R_, R) and np.allclose(t_, t)):
            ctx.skip("operations listed differently")
            taus_ = np.asarray(t_)[(np.asarray(R_) == oracle.I3).all(axis=(1, 2))]
            exp = oracle.little(np.asarray(R_), k, taus=taus_, lo=1e-5, hi=1e-4)
            if exp is None:
                continue
        judge(ctx, what, exp, mp, len(R))
        conv_loose(ctx, rng, L2, p2, n2, R, t, taus, f"crystal of hall {h}", q)
        ctx.count("operations_judged", len(R))
        ctx.sig("conv", h, kind, len(exp), len(R))


def conv_loose(ctx, rng, L, pos, num, R, t, taus, what, q):
    import spgrep
    k, at, exp = tol_request(R, None, rng, taus=np.rint(taus * 24) / 24 if np.abs(taus * 24 - np.rint(taus * 24)).max() < 1e-6 else taus)
    if exp is None:
        ctx.skip("k too close to call")
        return
    what += f" k={k.tolist()} atol={at}"
    if q == 0:
        v = ctx.call("crystal_irreps", spgrep.get_spacegroup_irreps, L, pos, num, k, atol=at)
    elif rng.integers(2):
        v = ctx.call("crystal_spinor_irreps", spgrep.get_spacegroup_spinor_irreps, L, pos, num, kpoint=k, atol=at)
    else:
        mg = np.zeros(len(num)) if rng.integers(2) else (num == num.min()) * 1.0
        ds = __import__("spglib").get_magnetic_symmetry_dataset((L, pos, num, mg), symprec=1e-5)
        if ds is None:
            ctx.skip("spglib finds no magnetic symmetry")
            return
        R, t, tr = ds["rotations"].astype(int), ds["translations"], np.asarray(ds["time_reversals"]).astype(int)
        tm = t[(R == oracle.I3).all(axis=(1, 2)) & (tr == 0)]
        exp = oracle.little(R, k, tr, taus=np.rint(tm * 24) / 24 if np.abs(tm * 24 - np.rint(tm * 24)).max() < 1e-6 else tm, lo=at / 3, hi=at * 3)
        if exp is None:
            ctx.skip("k too close to call")
            return
        v = ctx.call("crystal_corep", spgrep.get_spacegroup_spinor_irreps, L, pos, num, magmoms=mg, kpoint=k, atol=at)
    if not (np.array_equal(v[-3] if len(v) < 8 else v[-4], R) and np.allclose(v[-2] if len(v) < 8 else v[-3], t)):
        ctx.skip("operations listed differently")
        return
    judge(ctx, what, exp, v[-1], len(R))
    ctx.count("caller_tolerance_crystal")

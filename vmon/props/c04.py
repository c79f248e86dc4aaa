"""C04: crystal-structure entry point in any cell description."""
from .conv import *

RULE = ("one case = one crystal (atoms on general and special orbits of a Hall setting in a random invariant lattice, or a textbook structure) in one "
        "cell description (standard, shifted, skewed, permuted, primitive, skewed primitive, supercell), with several wave vectors, given in the "
        "dual basis or in another reciprocal basis, one or both methods; distinct non-trivial = (crystal, cell, k kind, order of little group, dims)")
ASSUMPTIONS = ["structures whose symmetry spglib does not identify are skipped and counted", "positions are exact to 1e-12 except in marked noisy cases"]
CPU_LIMIT = 90


def cases(tier, seed):
    out = []
    V = gen.VARIANTS
    for h in range(1, 531):
        n = len(gen._db(h)[0])
        for r in range(16 if tier == "quick" else 40):
            for j in range(1 if tier == "quick" else 2):
                v = V[(h + 3 * r + j + seed) % len(V)]
                if v == "super" and n > 48:
                    v = "shift"
                out.append(dict(h=h, v=v, r=r))
    for s in STRUCTURES:
        for v in V:
            out.append(dict(s=s, v=v, r=0))
    return out


def cost(c):
    return (len(gen._db(c["h"])[0]) if "h" in c else 40) * (3 if c["v"] == "super" else 1)


def run(case, ctx):
    import spgrep
    rng = seeded(case, ctx)
    L, pos, num = make_crystal(case, rng)
    c = gen.variant(L, pos, num, case["v"], rng)
    if c is None:
        ctx.skip("spglib finds no primitive cell")
        return
    L, pos, num, _ = c
    if len(pos) > 200:
        ctx.skip("more than 200 atoms")
        return
    sp = 1e-5
    c = rng.integers(5)
    if c == 0:
        pos = pos + rng.normal(size=pos.shape) * 1e-8
        ctx.count("noisy")
        sp = 1e-4
    elif c == 1:
        pos, sp = loosen(L, pos, num, rng, ctx)
        sp = sp or 1e-5
    ds = dataset((L, pos, num), sp)
    if ds is None:
        ctx.skip("spglib finds no symmetry")
        return
    R0 = ds["rotations"].astype(int)
    kinds = [gen.K_KINDS[rng.integers(len(gen.K_KINDS))] for _ in range(4 if len(R0) <= 48 else 2)] + ["special", "special2"]
    for kind in kinds:
        k = gen.kpoint(R0, rng, kind)
        kk, B = recip(L, k, rng)
        method = METHODS[rng.integers(2)]
        kw = {} if B is None else dict(reciprocal_lattice=B)
        if sp != 1e-5:
            kw["symprec"] = sp
        if rng.integers(2):
            kw["method"] = method
        v = ctx.call("crystal_irreps", spgrep.get_spacegroup_irreps, *dress_cell(L, pos, num, kk, rng), **kw)
        irreps, R, t, mp = oracle.as_tuple(v, 4, "result")
        what = f"{case} spacegroup {ds['international']} k={np.round(k, 4).tolist()} {kw.get('method', '')}: "
        msgs = ops_msgs(R, t, ds)
        if not msgs:
            msgs = conv_msgs(irreps, R, t, mp, k, ctx, what=what)
        if msgs is None:
            continue
        ctx.check(not msgs, "; ".join(msgs[:4]))
        ctx.count("cell:" + case["v"])
        ctx.count("recip_basis" if B is not None else "dual_basis")
        if len(mp) > 1:
            ctx.sig(case.get("h", case.get("s")), case["v"], kind, len(mp), tuple(sorted(m.shape[1] for m in irreps)))
    ctx.note(lambda: dict(case=case, spacegroup=ds["international"], atoms=len(pos), operations=len(R0), k=np.round(k, 5).tolist(), kind=kind))

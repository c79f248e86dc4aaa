"""C01: product law, unitarity, identity - small representations in a primitive cell."""
from .common import *

RULE = ("one case = one database setting, reduced to its primitive cell and presented in a random way (basis, origin, order, "
        "translation representatives, array types), with several wave vectors and both methods; non-trivial and distinct = "
        "(setting, k kind, method, size of little group, dims) whose little group has more than one operation")
ASSUMPTIONS = ["spglib's database lists the operations of each Hall number correctly"]
NK = {"quick": 6, "thorough": 10}


def cases(tier, seed):
    out = []
    for h in range(1, 531):
        for r in range(12 if tier == "quick" else 40):
            out.append(dict(h=h, r=r))
    return out






def run(case, ctx):
    import spgrep
    from spgrep.group import get_little_group
    from spgrep.irreps import enumerate_small_representations
    h = case["h"]
    rng = seeded(case, ctx)
    R0, t0 = gen.prim(h)
    nk = NK[ctx.tier]
    for q in range(nk):
        if q % 2 == 0:
            R, t, _, info = rand_presentation(R0, t0, rng, big=16)
        kind = gen.K_KINDS[(case["r"] * nk + q + h) % len(gen.K_KINDS)] if q else "special"
        k = gen.kpoint(R, rng, kind)
        for method in METHODS:
            Rd, td, kd = dress(R, t, k, rng)
            kw = group_kw(rng, len(R))
            via = rng.integers(3)
            if via < 2:
                res = ctx.call("primitive_irreps", spgrep.get_spacegroup_irreps_from_primitive_symmetry, Rd, td, kd,
                               method=method, **kw)
                irreps, mp = oracle.as_tuple(res, 2, "result")
                mp = oracle.as_array(mp, "mapping", kind="int")
                if mp.ndim != 1 or (len(mp) and (mp.min() < 0 or mp.max() >= len(R))):
                    ctx.fail(f"mapping out of range: {mp.tolist()}")
                    return
            else:
                lr, lt, mp = ctx.call("little_group", get_little_group, Rd, td, kd)
                res = ctx.call("small_representations", enumerate_small_representations, lr, lt, kd, method=method, **kw)
                irreps, _ = oracle.as_tuple(res, 2, "result")
            reps = oracle.as_reps(irreps, len(mp))
            lr, lt = R[mp], t[mp]
            tab = oracle.table(lr)
            if tab is None:
                ctx.fail(f"listed little group is not a group: {mp.tolist()}")
                return
            what = f"hall {h} k={np.round(k, 4).tolist()} method={method}: "
            if not reps:
                ctx.fail(what + "no representation returned")
                continue
            msgs = oracle.small_rep_msgs(reps, lr, lt, np.asarray(k, float), T=tab, what=what)
            ctx.count("matrix_products_checked", len(reps) * len(mp) ** 2)
            ctx.check(not msgs, "; ".join(msgs[:4]))
            if len(mp) > 1:
                ctx.sig(h, kind, method, len(mp), tuple(sorted(m.shape[1] for m in reps)))
            ctx.count(f"k:{kind}")
    ctx.note(lambda: dict(hall=h, last_k=np.round(k, 6).tolist(), kind=kind, little_order=len(mp),
                      dims=[m.shape[1] for m in reps]))

"""C02: completeness, irreducibility, inequivalence; both methods agree (ordinary, spin-derived, arbitrary factor systems)."""
from .common import *

RULE = ("one case = one database setting in a random presentation with several wave vectors, ordinary and spinor, both methods, and one "
        "little co-group with its factor system changed by a random coboundary; distinct non-trivial = (setting, k kind, flavour, order, dims) "
        "with little group order > 1")
ASSUMPTIONS = ["spglib's database lists the operations of each Hall number correctly"]
NK = {"quick": 5, "thorough": 9}


def cases(tier, seed):
    return [dict(h=h, r=r) for h in range(1, 531) for r in range(5 if tier == "quick" else 20)]


def coboundary(T, rng, e):
    c = np.exp(2j * np.pi * (rng.random(len(T)) if rng.integers(2) else rng.integers(0, 12, len(T)) / 12))
    c[e] = 1.0
    return c[:, None] * c[None, :] / c[T]


def run(case, ctx):
    import spgrep
    from spgrep.irreps import enumerate_unitary_irreps
    h = case["h"]
    rng = seeded(case, ctx)
    R0, t0 = gen.prim(h)
    nk = NK[ctx.tier]
    for q in range(nk):
        if q % 2 == 0:
            R, t, _, info = rand_presentation(R0, t0, rng, big=16)
            L = gen.metric_lattice(R, rng)
        kind = gen.K_KINDS[(case["r"] * nk + q + 3 * h) % len(gen.K_KINDS)] if q else "special"
        k = gen.kpoint(R, rng, kind)
        exp = oracle.little(R, k)
        if exp is None:
            ctx.skip("k too close to a symmetry element")
            continue
        n = len(exp)
        what = f"hall {h} k={np.round(k, 4).tolist()} "
        for flavour in ("ordinary", "spinor", "projective"):
            if flavour == "projective":
                lr, lt = R[exp], t[exp]
                T = oracle.table(lr)
                om, _ = oracle.lattice_phase(lr, lt, k, T)
                om = om * coboundary(T, rng, oracle.identity_index(lr)[0])
                om = om * np.where(True, 1.0, 1.0)
                # normalise omega(E, .) = 1 holds since t_E = 0
            res = {}
            for method in METHODS:
                kw = group_kw(rng, n)
                if flavour == "ordinary":
                    Rd, td, kd = dress(R, t, k, rng)
                    v = ctx.call("primitive_irreps", spgrep.get_spacegroup_irreps_from_primitive_symmetry, Rd, td, kd,
                                 method=method, **kw)
                    irreps, mp = oracle.as_tuple(v, 2, "result")
                elif flavour == "spinor":
                    v = ctx.call("primitive_spinor_irreps", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, R, t,
                                 kpoint=k, method=method, **kw)
                    irreps, z, U, mp = oracle.as_tuple(v, 4, "result")
                else:
                    v = ctx.call("unitary_irreps", enumerate_unitary_irreps, lr, om, method=method, **kw)
                    irreps, ind = oracle.as_tuple(v, 2, "result")
                    mp = exp
                if len(mp) != n:
                    ctx.fail(what + f"{flavour} {method}: {len(mp)} little-group operations, expected {n}")
                    return
                reps = oracle.as_reps(irreps, n)
                msgs = oracle.complete_msgs(reps, n, what + f"{flavour} {method}: ")
                ctx.check(not msgs, "; ".join(msgs))
                if msgs:
                    return
                res[method] = oracle.chars(reps)
                if flavour == "projective":
                    w = max(oracle.law_defect(m, T, om) for m in reps)
                    ctx.check(w < 1e-6, what + f"projective {method}: product law violated by {w:.3g}")
                ctx.count("irreps_judged", len(reps))
                if n > 1:
                    ctx.sig(h, kind, flavour, n, tuple(sorted(m.shape[1] for m in reps)))
            ctx.check(oracle.same_charset(res["Neto"], res["random"]), what + f"{flavour}: the two methods give different characters")
    ctx.note(lambda: dict(hall=h, k=np.round(k, 6).tolist(), kind=kind, little_order=n, dims=[m.shape[1] for m in reps]))

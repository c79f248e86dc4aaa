"""C05: physically irreducible (real) representations."""
from .common import *

RULE = ("one case = one space group setting (random presentation, wave vectors with and without 2k equivalent to zero) or one point group (random basis and "
        "order), real representations with both methods, judged against the complex ones returned for the same request; distinct non-trivial = "
        "(group, k kind, method, indicators, dims) with little group order > 1")
ASSUMPTIONS = ["spglib's database lists the operations of each Hall number correctly"]
NK = {"quick": 6, "thorough": 10}
KINDS = ["gamma", "half", "half", "special", "special2", "half", "special", "line", "mixed", "third", "quarter", "halfline", "generic"]


def cases(tier, seed):
    out = [dict(t="sg", n=h, r=r) for h in range(1, 531) for r in range(6 if tier == "quick" else 30)]
    out += [dict(t="pg", n=h, r=r) for h in gen.PG_HALLS for r in range(24 if tier == "quick" else 120)]
    return out


def fs(chi, om, T):
    n = len(T)
    g = np.arange(n)
    x = (om[g, g] * chi[T[g, g]]).sum() / n
    return x


def law_real(M, ind, ph, T):
    """M(i) M(j) = tau(phi_ij) M(ij) with the documented real form of the lattice translation"""
    n, d = M.shape[:2]
    P = np.matmul(M[:, None], M[None])
    X = M[T]
    c = np.cos(ph)[:, :, None, None]
    if ind == 1 or d % 2:
        return np.abs(P - c * X).max()
    s = np.sin(ph)[:, :, None, None]
    h = d // 2
    JX = np.concatenate([-X[:, :, h:], X[:, :, :h]], axis=2)
    return np.abs(P - (c * X + s * JX)).max()


def judge(ctx, what, real, ind, cplx, cind, rots, trans, k, T):
    n = len(rots)
    om, _ = oracle.lattice_phase(rots, trans, k, T)
    d = oracle.composed(rots, trans) - trans[T]
    ph = 2 * np.pi * (d @ k)
    tau = np.exp(-2j * np.pi * (trans @ k))
    two = np.abs(2 * k - np.rint(2 * k)).max()
    if 1e-10 < two < 1e-6:
        ctx.skip("2k too close to a reciprocal vector")
        return
    commens = two <= 1e-10
    C = oracle.chars(cplx)
    msgs = []
    exp = []
    for c in C:
        x = fs(c, om, T) if commens else 0.0
        if abs(x - np.rint(np.real(x))) > 1e-6:
            ctx.skip("complex representation fails")   # judged by C01/C02
            return
        exp.append(int(np.rint(np.real(x))))
    if cind is not None:
        if [int(x) for x in cind] != exp:
            msgs.append(f"indicators of the complex representations {list(cind)} != {exp}")
    used = [0] * len(cplx)
    if ind is not None and len(ind) != len(real):
        msgs.append(f"{len(ind)} indicators for {len(real)} representations")
        ind = None
    for a, M in enumerate(real):
        if np.iscomplexobj(M):
            if np.abs(M.imag).max() > 0:
                msgs.append(f"real representation {a} has imaginary parts")
            msgs.append(f"real representation {a} has a complex array type")
            continue
        dd = M.shape[1]
        o = np.abs(M @ M.transpose(0, 2, 1) - np.eye(dd)).max()
        if o > 1e-6:
            msgs.append(f"real representation {a} (dim {dd}) not orthogonal: {o:.3g}")
            continue
        ch = np.einsum("kii->k", M)
        if commens:
            mult = C.conj() @ ch / n
            r = np.rint(mult.real).astype(int)
            if np.abs(mult - r).max() > 1e-5:
                msgs.append(f"real representation {a} is no combination of the complex ones")
                continue
            on = [b for b in range(len(cplx)) if r[b]]
            I = exp[on[0]] if on else None
            good = (len(on) == 1 and r[on[0]] == 1 and I == 1) or (len(on) == 1 and r[on[0]] == 2 and I == -1) or (
                len(on) == 2 and r[on[0]] == r[on[1]] == 1 and I == 0 and np.abs(C[on[0]].conj() * 1 - C[on[1]]).max() < 1e-5)
            if not good:
                msgs.append(f"real representation {a} contains complex ones {[(b, int(r[b]), exp[b]) for b in on]} (index, multiplicity, indicator)")
                continue
            for b in on:
                used[b] += 1
        else:
            I = 0
            if dd % 2:
                msgs.append(f"real representation {a} has odd dimension {dd} at 2k != 0")
                continue
            h = dd // 2
            JM = np.concatenate([-M[:, h:], M[:, :h]], axis=1)
            chi = (ch + 1j * np.einsum("kii->k", JM)) / 2
            mult = C.conj() @ chi / n
            on = [b for b in range(len(cplx)) if abs(mult[b] - 1) < 1e-5]
            if len(on) != 1 or np.abs(np.delete(mult, on)).max(initial=0) > 1e-5:
                msgs.append(f"real representation {a} is not a complex representation plus its conjugate: {np.round(np.abs(mult), 3).tolist()}")
                continue
            used[on[0]] += 1
        if ind is not None and int(ind[a]) != I:
            msgs.append(f"reported indicator {ind[a]} of real representation {a}, should be {I}")
        w = law_real(M, I, ph, T)
        if w > 1e-6:
            msgs.append(f"real representation {a} (indicator {I}) violates the product law by {w:.3g}")
    for b, u in enumerate(used):
        if u > 1:
            msgs.append(f"complex representation {b} occurs in {u} real ones")
        if u == 0:
            # recorded defect: paired with a retained irrep of the same k whose characters are conjugate
            if not commens and not msgs and any(used[a] and np.around(np.sum(C[a] * C[b])) == n for a in range(len(cplx)) if a != b):
                ctx.known("PIR-DROP", what + f"complex representation {b} occurs in no real one")
            else:
                msgs.append(f"complex representation {b} occurs in no real one")
    ctx.count("real_irreps_judged", len(real))
    for e in exp:
        ctx.count(f"indicator:{e if commens else 'incommensurate'}")
    ctx.check(not msgs, what + "; ".join(msgs[:4]))


def run(case, ctx):
    import spgrep
    from spgrep.irreps import enumerate_small_representations, enumerate_unitary_irreps
    rng = seeded(case, ctx)
    if case["t"] == "pg":
        R = gen.pointgroup(case["n"]) if rng.integers(2) else gen.pointgroup_conv(case["n"])
        R, t, _, _ = gen.present(R, np.zeros((len(R), 3)), rng, basis=int(rng.choice([0, 1, 3])), perm=bool(rng.integers(2)))
        T = oracle.table(R)
        for method in METHODS:
            kw = group_kw(rng, len(R))
            v = ctx.call("unitary_irreps", enumerate_unitary_irreps, R, method=method)
            cplx, cind = oracle.as_tuple(v, 2, "result")
            cplx = oracle.as_reps(cplx, len(R))
            if rng.integers(2):
                real = ctx.call("pointgroup_real", spgrep.get_crystallographic_pointgroup_irreps_from_symmetry, R, real=True, method=method, **kw)
                ind = None
            else:
                v = ctx.call("unitary_irreps_real", enumerate_unitary_irreps, R, real=True, method=method, **kw)
                real, ind = oracle.as_tuple(v, 2, "result")
            real = oracle.as_reps(real, len(R))
            judge(ctx, f"point group of hall {case['n']} {method}: ", real, ind, cplx, cind, R, np.zeros((len(R), 3)), np.zeros(3), T)
            ctx.sig("pg", case["n"], method, tuple(m.shape[1] for m in real), len(R))
        return
    R0, t0 = gen.prim(case["n"])
    nk = NK[ctx.tier]
    for q in range(nk):
        if q % 2 == 0:
            R, t, _, _ = rand_presentation(R0, t0, rng, big=16)
        kind = KINDS[(case["r"] * nk + q + case["n"]) % len(KINDS)]
        k = gen.kpoint(R, rng, kind)
        exp = oracle.little(R, k)
        if exp is None:
            ctx.skip("k too close to call")
            continue
        lr, lt = R[exp], t[exp]
        T = oracle.table(lr)
        for method in METHODS:
            what = f"hall {case['n']} k={np.round(k, 4).tolist()} {method}: "
            kw = group_kw(rng, len(exp))
            kd = k
            if np.abs(k - np.rint(k)).max() == 0 and rng.integers(2):
                kd = k.astype(int)
            v = ctx.call("small_representations", enumerate_small_representations, lr, lt, kd, method=method, **kw)
            cplx, cind = oracle.as_tuple(v, 2, "result")
            cplx = oracle.as_reps(cplx, len(exp))
            if oracle.complete_msgs(cplx, len(exp)):
                ctx.fail(what + "complex representations incomplete")
                return
            ind = None
            if rng.integers(3):
                v = ctx.call("small_representations_real", enumerate_small_representations, lr, lt, kd, real=True, method=method, **kw)
                real, ind = oracle.as_tuple(v, 2, "result")
            else:
                v = ctx.call("primitive_irreps_real", spgrep.get_spacegroup_irreps_from_primitive_symmetry, R, t, kd, real=True, method=method, **kw)
                real, mp = oracle.as_tuple(v, 2, "result")
                if list(mp) != exp.tolist():
                    ctx.fail(what + "wrong little group")
                    return
            real = oracle.as_reps(real, len(exp))
            judge(ctx, what, real, ind, cplx, cind, lr, lt, np.asarray(k, float), T)
            if len(exp) > 1:
                ctx.sig(case["n"], kind, method, len(exp), tuple(m.shape[1] for m in real), tuple(ind) if ind is not None else None)
    ctx.note(lambda: dict(hall=case["n"], k=np.round(k, 5).tolist(), kind=kind, real_dims=[m.shape[1] for m in real], indicators=None if ind is None else [int(x) for x in ind]))

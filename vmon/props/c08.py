"""C08: magnetic co-representations."""
from .conv import *

RULE = ("one case = one magnetic space group (UNI number; primitive cell of its unitary translations, random presentation and lattice) with several k and "
        "both methods, its magnetic point group, or a crystal with collinear moments in some cell; anti-unitary product law, unitarity, flags, "
        "irreducibility through the commutant, exhaustiveness, indicators; distinct non-trivial = (group, flavour, k kind, method, orders, indicators, dims) "
        "with more than one operation")
ASSUMPTIONS = ["structures whose magnetic symmetry spglib does not identify are skipped and counted"]
CPU_LIMIT = 90
NK = {"quick": 3, "thorough": 8}


def cases(tier, seed):
    f = 2 if tier == "quick" else 8
    out = [dict(t="msg", u=u, r=r) for u in range(1, 1652) for r in range(f)]
    out += [dict(t="mpg", u=u, r=r) for u in range(1 + seed % 3, 1652, 3) for r in range(f)]
    for h in range(1, 531):
        for r in range(f):
            v = gen.VARIANTS[(h + 3 * r + seed) % len(gen.VARIANTS)]
            if v in ("prim", "uniprim"):
                v = ["std", "uni"][(h + r) % 2]
            if v == "super" and len(gen._db(h)[0]) > 16:
                v = "shift"
            out.append(dict(t="conv", h=h, v=v, r=r))
    return out


def indicator_msgs(reps, ind, tr, what):
    """1: unitary part irreducible; -1: one irrep twice; 0: two inequivalent"""
    H = tr == 0
    out = []
    if not (~H).any():
        return [] if list(ind) == [] or len(ind) == len(reps) else [f"{what}{len(ind)} indicators for {len(reps)} co-representations"]
    if len(ind) != len(reps):
        return [f"{what}{len(ind)} indicators for {len(reps)} co-representations"]
    for a, (m, i) in enumerate(zip(reps, ind)):
        c = np.einsum("kii->k", m)[H]
        x = (np.abs(c) ** 2).mean()
        want = {1: 1, -1: 4, 0: 2}.get(int(i))
        if want is None or abs(x - want) > 1e-5:
            out.append(f"{what}co-representation {a}: indicator {i} but norm of the unitary part is {x:.4f}")
    return out


def run(case, ctx):
    import spgrep
    from spgrep.corep import enumerate_spinor_small_corepresentations
    rng = seeded(case, ctx)
    if case["t"] == "conv":
        return run_conv(case, ctx, rng)
    R, t, tr = gen.mprim(case["u"])
    pg = case["t"] == "mpg"
    if pg:
        if rng.integers(2):
            R, t, tr = gen.mdb(case["u"])
        keep = gen.dedup(R, t, tr)
        R, t, tr = R[keep], np.zeros((len(keep), 3)), tr[keep]
        R, t, tr, _ = gen.present(R, t, rng, tr=tr, basis=int(rng.choice([0, 1, 3])), perm=bool(rng.integers(2)))
        ks, kinds = [np.zeros(3)], ["pg"]
    else:
        R, t, tr, _ = rand_presentation(R, t, rng, tr, big=16)
        kinds = ["special"] + [gen.K_KINDS[rng.integers(len(gen.K_KINDS))] for _ in range(NK[ctx.tier] - 1)]
        ks = [gen.kpoint(R, rng, kd, tr=tr) for kd in kinds]
    L = gen.metric_lattice(R, rng)
    for kind, k in zip(kinds, ks):
        exp = oracle.little(R, k, tr)
        if exp is None:
            ctx.skip("k too close to call")
            continue
        for method in METHODS:
            if not pg and len(R) > 48 and rng.integers(2):
                continue
            kw = group_kw(rng, len(R))
            what = f"{case['t']} {case['u']} k={np.round(k, 4).tolist()} {method}: "
            Rd, td, kd, trd = dress(R, t, k, rng, tr)
            if pg:
                v = ctx.call("pointgroup_corep", spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry, L, Rd, trd, method=method, **kw)
                irr, ind, z, U, fl = oracle.as_tuple(v, 5, "result")
                mp = exp
            elif rng.integers(4) == 0:
                # the function behind the entry point, given the little group itself
                v = ctx.call("enumerate_corep", enumerate_spinor_small_corepresentations, L, Rd[exp], td[exp], np.asarray(trd)[exp], kd, method=method)
                irr, ind, z, U, fl = oracle.as_tuple(v, 5, "result")
                mp = exp
                ctx.count("direct_calls")
            else:
                nokp = np.abs(k).max() == 0 and rng.integers(2)
                v = ctx.call("primitive_corep", spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry, L, Rd, td, trd,
                             **({} if nokp else dict(kpoint=kd)), method=method, **kw)
                irr, ind, z, U, fl, mp = oracle.as_tuple(v, 6, "result")
            if list(mp) != exp.tolist():
                ctx.fail(what + f"wrong little group {list(mp)[:40]} expected {exp.tolist()[:40]}")
                return
            n = len(mp)
            lr, lt, ltr = R[mp], t[mp], tr[mp]
            fl = oracle.as_array(fl, "anti-linear flags", (n,))
            ctx.check(np.array_equal(fl.astype(bool), ltr != 0), what + "anti-linear flags wrong")
            reps = oracle.as_reps(irr, n)
            z = oracle.as_array(z, "factor system", (n, n))
            U = oracle.as_array(U, "unitary rotations", (n, 2, 2))
            T = oracle.table(lr, ltr)
            om, _ = oracle.lattice_phase(lr, lt, k, T)
            msgs = oracle.small_rep_msgs(reps, lr, lt, np.asarray(k, float), z=z, tr=ltr, T=T, what=what)
            msgs += oracle.spin_msgs(L, lr, z, U, ltr, noise=1e-8, T=T)
            msgs += oracle.corep_complete_msgs(reps, ltr, int((ltr == 0).sum()), what=what)
            msgs += indicator_msgs(reps, ind, ltr, what)
            if not msgs:
                for a, m in enumerate(reps):
                    if not oracle.corep_irreducible(m, ltr, om, T, rng):
                        msgs.append(f"{what}co-representation {a} is reducible")
            ctx.check(not msgs, what + "; ".join(msgs[:4]))
            ctx.count("matrix_products_checked", len(reps) * n * n)
            for i in ind:
                ctx.count(f"indicator:{int(i)}")
            if n > 1:
                ctx.sig(case["t"], case["u"], kind, method, n, tuple(int(i) for i in ind), tuple(m.shape[1] for m in reps))
    ctx.note(lambda: dict(case=case, k=np.round(k, 5).tolist(), little=n, anti=int((ltr != 0).sum()), indicators=[int(i) for i in ind], dims=[m.shape[1] for m in reps]))


MOMENTS = ["zero", "one_species", "ferro", "random", "antiferro", "antiferro"]


def run_conv(case, ctx, rng):
    import spgrep
    big = len(gen._db(case["h"])[0]) > 48
    L, pos, num = gen.crystal(case["h"], rng, norb=1 if big else 2, special=big or bool(rng.integers(2)))
    mt = MOMENTS[rng.integers(len(MOMENTS))]
    N = len(num)
    if mt == "zero":
        mg = np.zeros(N)
    elif mt == "one_species":
        mg = (num == 1) * 1.0
    elif mt == "ferro":
        mg = np.ones(N)
    elif mt == "random":
        mg = rng.choice([-1.0, 1.0], N)
    else:
        mg = np.zeros(N)
        w = np.where(num == 1)[0]
        if rng.integers(2):
            q = rng.integers(0, 2, 3)
            q = q if q.any() else np.array([1, 0, 0])
            mg[w] = np.where(np.floor(2 * (pos[w] @ q) + 1e-6) % 2 == 0, 1.0, -1.0)
        else:
            mg[w] = np.where(np.arange(len(w)) % 2 == 0, 1.0, -1.0)
    c = gen.variant(L, pos, num, case["v"], rng, extra=mg)
    if c is None or len(c[1]) > 120:
        ctx.skip("no cell")
        return
    L, pos, num, mg = c
    if rng.integers(2):
        # lengths of the moments: no integers, other ones for every species, some close to each other or below a half
        f = np.array([0.2, 0.4, 1.0, 1.3, 1.7, 2.25, 3.6])[rng.integers(7, size=int(num.max()) + 1)]
        mg = mg * f[num]
        if mt == "random" and rng.integers(2):
            mg = np.where(rng.integers(2, size=len(mg)), mg, 0.75 * mg)
    if case["v"] == "super" and mt == "antiferro":
        mg = mg * np.where(np.arange(len(mg)) < len(mg) // 2, 1, -1)   # anti-translation between the two halves
    sp = None
    if rng.integers(5) == 0:
        pos, sp = loosen(L, pos, num, rng, ctx, extra=mg)
    ds = dataset((L, pos, num, mg), sp or 1e-5, mag=True)
    if ds is None:
        ctx.skip("spglib finds no magnetic symmetry")
        return
    R0, tr0 = ds["rotations"].astype(int), np.asarray(ds["time_reversals"]).astype(int)
    kinds = [gen.K_KINDS[rng.integers(len(gen.K_KINDS))] for _ in range(1 if len(R0) > 48 else 2)] + ["special"]
    for kind in kinds:
        k = gen.kpoint(R0, rng, kind, tr=tr0)
        kk, B = recip(L, k, rng)
        kw = {} if B is None else dict(reciprocal_lattice=B)
        if sp:
            kw["symprec"] = sp
        if rng.integers(2):
            kw["method"] = METHODS[rng.integers(2)]
        Ld, pd, nd, kd, md = dress_cell(L, pos, num, kk, rng, mg)
        v = ctx.call("crystal_corep", spgrep.get_spacegroup_spinor_irreps, Ld, pd, nd, md, kd, **kw)
        irreps, z, U, fl, R, t, tr, mp = oracle.as_tuple(v, 8, "result")
        what = f"{case} moments {mt} uni {ds['uni_number']} k={np.round(k, 4).tolist()} {kw.get('method', '')}: "
        tr = oracle.as_array(tr, "time reversals", (len(R),)).astype(int)
        msgs = ops_msgs(R, t, ds, tr)
        if not msgs:
            msgs = conv_msgs(irreps, R, t, mp, k, ctx, z=z, tr=tr, what=what)
            if msgs is None:
                continue
            lr, ltr = np.asarray(R).astype(int)[mp], tr[mp]
            m = len(mp)
            fl = oracle.as_array(fl, "anti-linear flags", (m,))
            if not np.array_equal(fl.astype(bool), ltr != 0):
                msgs.append(what + "anti-linear flags wrong")
            U = oracle.as_array(U, "unitary rotations", (m, 2, 2))
            T, _ = oracle.conv_table(lr, np.asarray(t)[mp], ltr)
            V = np.matmul(U[:, None], np.where((ltr != 0)[:, None, None, None], U.conj()[None], U[None]))
            if np.abs(V - np.asarray(z)[:, :, None, None] * U[T]).max() > 1e-5:
                msgs.append(what + "spin rotations do not multiply with the returned signs")
            C = oracle.cart(L, lr)
            for i in range(m):
                u = U[i] @ oracle.THETA.conj().T if ltr[i] else U[i]
                if np.abs(oracle.adjoint(u) - C[i] * np.sign(np.linalg.det(C[i]))).max() > 1e-4:
                    msgs.append(f"{what}spin rotation {i} does not belong to operation {mp[i]}")
                    break
        ctx.check(not msgs, "; ".join(msgs[:4]))
        ctx.count("cell:" + case["v"])
        ctx.count("moments:" + mt)
        e = (R0 == oracle.I3).all(axis=(1, 2))
        typ = 1 if not tr.any() else (2 if any(e[i] and tr0[i] and np.abs(ds["translations"][i]).max() < 1e-5 for i in range(len(R0))) else (4 if (e & (tr0 != 0)).any() else 3))
        ctx.count(f"type:{typ}")
        if len(mp) > 1:
            ctx.sig("conv", case["h"], case["v"], mt, typ, kind, len(mp), tuple(sorted(m.shape[1] for m in irreps)))

"""C24: small numerical noise in the inputs does not change an answer."""
from .common import *

RULE = ("one case = one exact request and the same request with noise of several sizes on one or all of its floating-point inputs (translations, wave vector, "
        "lattice, representation matrices, tensors, atomic positions), the two answers compared: selected operations, number, dimensions, indicators, signs, "
        "characters, bases; distinct non-trivial = (kind, group, what is noisy, size of noise, dims) with more than one operation")
ASSUMPTIONS = ["noise on k and on the translation of the identity only up to 1e-9, the documented absolute tolerance being 1e-8; k rounded to 6 digits is requested with atol=1e-4",
               "random search: noise above 1e-7 may also be answered by a warning or an exception",
               "symmetrisation of tensors: noise up to 1e-8, two orders below its documented tolerance"]
CPU_LIMIT = 120
EPS = (1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5)


def cases(tier, seed):
    f = 2 if tier == "quick" else 16
    out = [dict(t=t, n=h, r=r) for h in range(1, 531) for t, m in (("prim", 4), ("spin", 4), ("rep", 8), ("tens", 1), ("cryst", 2)) for r in range(m * f)]
    out += [dict(t="mag", n=u, r=r) for u in range(1, 1652) for r in range(f)]
    out += [dict(t="pg", n=h, r=r) for h in gen.PG_HALLS for r in range(12 * f)]
    return out


def cost(c):
    return {"tens": 3, "cryst": 2, "mag": 1}.get(c["t"], 0)


def run(case, ctx):
    dict(prim=run_prim, spin=run_prim, mag=run_mag, pg=run_pg, rep=run_rep, tens=run_tens, cryst=run_cryst)[case["t"]](case, ctx, seeded(case, ctx))


def uni(rng, sh, eps):
    return rng.uniform(-1, 1, sh) * eps


def noisy_k(R, k, rng, eps):
    """noise on k that moves no residual R^T k -+ k by more than 5 eps"""
    return k + uni(rng, 3, eps) * 5 / (1 + np.abs(R).sum(axis=1).max())


def noisy_t(R, t, rng, eps, tr=None):
    d = uni(rng, t.shape, eps)
    e = (R == oracle.I3).all(axis=(1, 2))
    if tr is not None:
        e &= tr == 0
    if eps > 1e-9 or rng.integers(2):
        d[e] = 0
    return t + d


def nearest(A, B):
    """largest distance of a one-to-one matching of two lists of characters (greedy; None if the numbers differ)"""
    if len(A) != len(B):
        return None
    D = np.abs(A[:, None] - B[None]).max(axis=2)
    worst = 0.0
    for _ in range(len(A)):
        i, j = np.unravel_index(np.argmin(D), D.shape)
        worst = max(worst, D[i, j])
        D[i], D[:, j] = np.inf, np.inf
    return worst


def pairs(ctx, name, exact, noisy, plans, strict, judge):
    """plans: (label, eps, args).  judge(a, b, eps) -> messages; strict(label, eps): no warning or exception accepted as an answer"""
    a = ctx.call(name, exact)
    for label, eps, arg in plans:
        o = ctx.observe(name, noisy, *arg)
        what = f"noise {eps:g} on {label}: "
        if o.exc is not None:
            if strict(label, eps):
                ctx.fail(what + f"raised {type(o.exc).__name__}: {str(o.exc)[:120]}")
            else:
                ctx.count("loud")
            continue
        m = judge(a, o.value, eps)
        if m and o.warns and not strict(label, eps):
            ctx.count("loud")
            continue
        ctx.check(not m, what + "; ".join(m[:3]))
        ctx.count(f"compared:{label}")
        ctx.count(f"eps:{eps:g}")
    return a


# --------------------------------------------------------------------------------------------- space groups
def tol_of(method, eps):
    """random search: subspaces of nearly equal eigenvalues of the matrix drawn mix by noise / gap"""
    return max(1e-6, 5e3 * eps) if method == "Neto" else 0.1 if eps < 1.01e-7 else 0.5


def gauge_msgs(Ua, za, Ub, zb, T, eps, cond):
    """signs of spin rotations relative to each other; None if the matrices differ otherwise"""
    s = np.einsum("iab,iab->i", Ua.conj(), Ub).real / 2
    g = np.where(s > 0, 1.0, -1.0)
    x = np.abs(Ub - g[:, None, None] * Ua).max()
    m = []
    if x > 1e-6 + 1e3 * eps * cond:
        m.append(f"spin rotations move by {x:.2g}")
    if np.abs(zb - za * g[:, None] * g[None, :] * g[T]).max() > 1e-9:
        m.append("signs of the spin factor system change beyond a sign per operation")
    return g, m


def run_prim(case, ctx, rng):
    import spgrep
    spin = case["t"] == "spin"
    R, t = gen.prim(case["n"])
    R, t, _, _ = rand_presentation(R, t, rng)
    k = gen.kpoint(R, rng, "half" if not spin and case["r"] % 4 == 0 else None, far="near")
    if oracle.little(R, k) is None:
        ctx.skip("k too close to call")
        return
    L = gen.metric_lattice(R, rng) if spin else None
    cond = np.linalg.cond(L) if spin else 1
    method = METHODS[rng.integers(4) == 0]
    real = not spin and rng.integers(4) == 0 and np.abs(2 * k - np.rint(2 * k)).max() < 1e-12   # elsewhere see the known finding of C05
    T = oracle.table(R)

    def f(R, t, k, L, **kw):
        if method != "Neto" or rng.integers(2):
            kw["method"] = method
        if spin:
            return spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, R, t, kpoint=k, **kw)
        if real:
            kw["real"] = True
        return spgrep.get_spacegroup_irreps_from_primitive_symmetry(R, t, k, **kw)

    plans = []
    labels = ["translations", "k", "lattice", "all"] if spin else ["translations", "k", "all"]
    for eps in rng.choice(EPS, 3, replace=False):
        label = labels[rng.integers(len(labels))]
        if label in ("k", "all") and eps > 1e-9:
            eps = 1e-9 if rng.integers(2) else 1e-10
        t2 = noisy_t(R, t, rng, eps) if label in ("translations", "all") else t
        k2 = noisy_k(R, k, rng, eps) if label in ("k", "all") else k
        L2 = L * (1 + uni(rng, (3, 3), eps)) if spin and label in ("lattice", "all") else L
        plans.append((label, float(eps), (R, t2, k2, L2)))

    def judge(a, b, eps):
        a, b = oracle.as_tuple(a, 4 if spin else 2, "result"), oracle.as_tuple(b, 4 if spin else 2, "result")
        mp, mq = oracle.as_array(a[-1], "mapping", kind="int"), oracle.as_array(b[-1], "mapping", kind="int")
        if mp.tolist() != mq.tolist():
            return [f"little group {mq.tolist()[:30]} instead of {mp.tolist()[:30]}"]
        n = len(mp)
        A, B = oracle.as_reps(a[0], n), oracle.as_reps(b[0], n)
        m = []
        C = oracle.chars(A)
        if spin:
            U, z = oracle.as_array(a[2], "spin rotations", (n, 2, 2)), oracle.as_array(a[1], "factor system", (n, n))
            V, y = oracle.as_array(b[2], "spin rotations", (n, 2, 2)), oracle.as_array(b[1], "factor system", (n, n))
            g, m = gauge_msgs(U, z, V, y, oracle.table(R[mp]), eps, cond)
            C = C * g
        if len(A) != len(B):
            return m + [f"{len(B)} representations instead of {len(A)}"]
        x = nearest(C, oracle.chars(B))
        if x > tol_of(method, eps):
            m.append(f"characters move by {x:.2g}")
        ctx.sig(case["t"], case["n"], eps, tuple(sorted(M.shape[1] for M in A)))
        return m

    what = f"hall {case['n']} k={np.round(k, 4).tolist()} {method}{' real' if real else ''}{' spinor' if spin else ''}"
    a = pairs(ctx, "prim_" + case["t"], lambda: f(R, t, k, L), f, plans, lambda lab, e: method == "Neto" or e <= 1.01e-7, judge)
    # a wave vector typed with six digits, the tolerance given
    k6 = np.round(k, 6)
    e = np.abs(k6 - k).max()
    if 0 < e and method == "Neto":
        o = ctx.observe("prim_atol", f, R, t, k6, L, atol=1e-4)
        if o.exc is not None:
            ctx.fail(f"k rounded to 6 digits, atol=1e-4: raised {type(o.exc).__name__}: {str(o.exc)[:100]}")
        else:
            lit = oracle.little(R, k, lo=1e-9, hi=1e-2)
            if lit is None:
                ctx.skip("generic k within 1e-2 of a special one")
            else:
                m = judge(a, o.value, 1e-6)
                ctx.check(not m, "k rounded to 6 digits, atol=1e-4: " + "; ".join(m[:3]))
                ctx.count("compared:rounded k")
    if ctx.fails:
        ctx.fails.insert(0, what)
    ctx.note(lambda: dict(case=case, k=np.round(k, 5).tolist(), method=method, noise=[(p[0], p[1]) for p in plans]))


def run_mag(case, ctx, rng):
    import spgrep
    from spgrep.group import decompose_by_maximal_space_subgroup
    R, t, tr = gen.mprim(case["n"])
    R, t, tr, _ = rand_presentation(R, t, rng, tr=tr)
    k = gen.kpoint(R, rng, tr=tr, far="near")
    if oracle.little(R, k, tr=tr) is None:
        ctx.skip("k too close to call")
        return
    L = gen.metric_lattice(R, rng)
    cond = np.linalg.cond(L)
    method = METHODS[rng.integers(4) == 0]

    def f(t, k, L):
        return spgrep.get_spacegroup_spinor_irreps_from_primitive_symmetry(L, R, t, time_reversals=tr, kpoint=k, method=method)

    plans = []
    for eps in rng.choice(EPS, 2, replace=False):
        label = ["translations", "k", "lattice", "all"][rng.integers(4)]
        if label in ("k", "all") and eps > 1e-9:
            eps = 1e-9
        plans.append((label, float(eps), (noisy_t(R, t, rng, eps, tr) if label in ("translations", "all") else t,
                                          noisy_k(R, k, rng, eps) if label in ("k", "all") else k,
                                          L * (1 + uni(rng, (3, 3), eps)) if label in ("lattice", "all") else L)))

    def judge(a, b, eps):
        a, b = oracle.as_tuple(a, 6, "result"), oracle.as_tuple(b, 6, "result")
        mp, mq = oracle.as_array(a[5], "mapping", kind="int"), oracle.as_array(b[5], "mapping", kind="int")
        if mp.tolist() != mq.tolist():
            return [f"little group {mq.tolist()[:30]} instead of {mp.tolist()[:30]}"]
        n = len(mp)
        A, B = oracle.as_reps(a[0], n), oracle.as_reps(b[0], n)
        U, z = oracle.as_array(a[3], "spin rotations", (n, 2, 2)), oracle.as_array(a[2], "factor system", (n, n))
        V, y = oracle.as_array(b[3], "spin rotations", (n, 2, 2)), oracle.as_array(b[2], "factor system", (n, n))
        g, m = gauge_msgs(U, z, V, y, oracle.table(R[mp], tr[mp]), eps, cond)
        if not np.array_equal(np.asarray(a[4]).astype(bool), np.asarray(b[4]).astype(bool)):
            m.append("anti-linear flags change")
        if len(A) != len(B):
            return m + [f"{len(B)} co-representations instead of {len(A)}"]
        if sorted(int(x) for x in a[1]) != sorted(int(x) for x in b[1]):
            m.append(f"indicators {list(b[1])} instead of {list(a[1])}")
        un = tr[mp] == 0
        x = nearest((oracle.chars(A) * g)[:, un], oracle.chars(B)[:, un])
        if x > tol_of(method, eps):
            m.append(f"characters move by {x:.2g}")
        ctx.sig("mag", case["n"], eps, tuple(sorted(M.shape[1] for M in A)))
        return m

    pairs(ctx, "prim_mag", lambda: f(t, k, L), f, plans, lambda lab, e: method == "Neto" or e <= 1.01e-7, judge)
    # coset decomposition
    if tr.any():
        t2 = noisy_t(R, t, rng, 5e-9 / (3 + np.abs(R).sum(axis=2).max()), tr)
        a = ctx.call("coset", decompose_by_maximal_space_subgroup, R, t, tr)
        b = ctx.call("coset", decompose_by_maximal_space_subgroup, R, t2, tr)
        same = len(a) == len(b) == 3 and [int(x) for x in a[0]] == [int(x) for x in b[0]] and [int(x) for x in a[1]] == [int(x) for x in b[1]] and a[2] == b[2]
        ctx.check(same, lambda: f"coset decomposition of UNI {case['n']} changes with noise below 1e-9 on the translations")
    if ctx.fails:
        ctx.fails.insert(0, f"UNI {case['n']} k={np.round(k, 4).tolist()} {method}")
    ctx.note(lambda: dict(case=case, k=np.round(k, 5).tolist(), method=method))


def run_pg(case, ctx, rng):
    import spgrep
    R = pgroup(case["n"], rng, conv=bool(rng.integers(2)))
    grey = bool(rng.integers(2))
    tr = np.zeros(len(R), int)
    if grey:
        R = np.concatenate([R, R])
        tr = np.repeat([0, 1], len(R) // 2)
        p = rng.permutation(len(R))
        R, tr = R[p], tr[p]
    L = gen.metric_lattice(R, rng)
    cond = np.linalg.cond(L)
    n = len(R)
    T = oracle.table(R, tr)

    def f(L):
        return spgrep.get_crystallographic_pointgroup_spinor_irreps_from_symmetry(L, R, tr if grey else None)

    def judge(a, b, eps):
        i = 2 if grey else 1
        A, B = oracle.as_reps(a[0], n), oracle.as_reps(b[0], n)
        g, m = gauge_msgs(np.asarray(a[i + 1]), np.asarray(a[i]), np.asarray(b[i + 1]), np.asarray(b[i]), T, eps, cond)
        if len(A) != len(B):
            return m + [f"{len(B)} representations instead of {len(A)}"]
        if grey and sorted(int(x) for x in a[1]) != sorted(int(x) for x in b[1]):
            m.append("indicators change")
        un = tr == 0
        x = nearest((oracle.chars(A) * g)[:, un], oracle.chars(B)[:, un])
        if x > tol_of("Neto", eps):
            m.append(f"characters move by {x:.2g}")
        ctx.sig("pg", case["n"], eps, grey)
        return m

    pairs(ctx, "pg_spin", lambda: f(L), f, [("lattice", float(e), (L * (1 + uni(rng, (3, 3), e)),)) for e in EPS], lambda lab, e: True, judge)
    if ctx.fails:
        ctx.fails.insert(0, f"point group of hall {case['n']}, {n} operations")
    ctx.note(lambda: dict(case=case, order=n, grey=grey))


# --------------------------------------------------------------------------------------------- representations
def run_rep(case, ctx, rng):
    from spgrep.representation import get_intertwiner, project_to_irrep, frobenius_schur_indicator
    from spgrep.irreps import decompose_representation, get_physically_irrep
    fl = ["ordinary", "spinor", "small", "twisted"][(case["n"] + case["r"]) % 4]
    R, T, om = algebra(case["n"], rng, fl)
    n = len(R)
    irr = oracle.irreps(T, om, rng)
    C = oracle.chars(irr)
    mult = rng.integers(0, 3, len(irr))
    mult[rng.integers(len(irr))] = rng.integers(1, 3)
    while sum(m * D.shape[1] for m, D in zip(mult, irr)) > 24:
        mult[np.argmax(mult)] -= 1
    rep = regauge(oracle.direct_sum([D for m, D in zip(mult, irr) for _ in range(m)]), rng, ["haar", "none"][rng.integers(2)])
    what = f"hall {case['n']} {fl} ({n} operations): "

    def noise(M, eps):
        return M + (uni(rng, M.shape, eps) + 1j * uni(rng, M.shape, eps) if np.iscomplexobj(M) else uni(rng, M.shape, eps))

    eps = float(EPS[1 + rng.integers(3)])     # 1e-9 .. 1e-7
    v = oracle.as_reps(ctx.call("decompose", decompose_representation, noise(rep, eps)), n)
    x = nearest(C[mult > 0], oracle.chars(v)) if v else None
    ctx.check(x is not None and x < 0.05, lambda: what + f"decomposition with noise {eps:g}: {len(v)} irreps instead of {(mult > 0).sum()}" +
              ("" if x is None else f", characters off by {x:.2g}"))
    for a in rng.permutation(len(irr))[:4]:
        D, d, m = irr[a], irr[a].shape[1], int(mult[a])
        e = float(EPS[1 + rng.integers(5)])   # 1e-9 .. 1e-5
        at = max(1e-6, 1e3 * e)               # projections below the tolerance count as zero, so errors are up to noise / tolerance
        B = ctx.call("project", project_to_irrep, noise(rep, e), noise(D, min(e, 1e-6)), **({} if at == 1e-6 else dict(atol=at)))
        if len(B) != m:
            ctx.fail(what + f"projection on irrep {a} (dim {d}) with noise {e:g}: {len(B)} sets instead of {m}")
        elif m:
            B = [oracle.as_array(b, "basis set", (d, rep.shape[1])) for b in B]
            x = max(np.abs(b.conj() @ b.T - np.eye(d)).max() for b in B)
            y = max(np.abs(rep @ b.T - b.T @ D).max() for b in B)
            s = np.linalg.svd(np.concatenate(B), compute_uv=False)[-1]
            ctx.check(max(x, y) < max(1e-5, 20 * d * e / at) and s > 1e-2, lambda: what +
                      f"projection on irrep {a} (dim {d}) with noise {e:g}: orthonormality {x:.2g}, transformation {y:.2g}, independence {s:.2g}")
        e = float(EPS[1 + rng.integers(5)])
        B = regauge(D, rng, "haar")
        M = oracle.as_array(ctx.call("intertwiner", get_intertwiner, noise(D, e), noise(B, e)), "intertwiner", (d, d))
        x = max(np.abs(D @ M - M @ B).max(), np.abs(M.conj().T @ M - np.eye(d)).max())
        ctx.check(x < max(1e-5, 1e3 * e), lambda: what + f"intertwiner of dim {d} with noise {e:g} off by {x:.2g}")
        if np.abs(om.imag).max() < 1e-9:
            g = np.arange(n)
            ind = int(np.rint(np.sum(om[g, g] * C[a][T[g, g]]).real / n))
            if np.abs(om - 1).max() < 1e-9:
                got = ctx.call("indicator", frobenius_schur_indicator, noise(D, e))
                ctx.check(int(got) == ind, lambda: what + f"indicator {got} instead of {ind} with noise {e:g}")
            P = oracle.as_array(ctx.call("real_form", get_physically_irrep, noise(D, e), ind), "real form", (n,) + ((d, d) if ind == 1 else (2 * d, 2 * d)))
            x = max(oracle.law_defect(P, T, om), np.abs(P.imag).max(), oracle.unitary_defect(P))
            ctx.check(x < max(1e-5, 1e3 * e), lambda: what + f"real form (indicator {ind}) with noise {e:g} off by {x:.2g}")
        ctx.count("compared:matrices")
    if n > 1:
        ctx.sig("rep", case["n"], fl, eps, tuple(mult.tolist()))
    ctx.note(lambda: dict(case=case, flavour=fl, order=n, multiplicities=mult.tolist()))


def run_tens(case, ctx, rng):
    from spgrep.tensor import get_symmetry_adapted_tensors, apply_intrinsic_symmetry
    R = pgroup(case["n"], rng, steps=(0, 1))
    n = len(R)
    C = oracle.cart(gen.metric_lattice(R, rng, "rand"), R)
    real = bool(rng.integers(2))
    rank = int(rng.choice([1, 2, 2, 3]))
    want = int(np.rint((np.einsum("kii->k", C) ** rank).sum() / n))
    ws = oracle.sym_power_count(C, rank)
    e = float(EPS[rng.integers(len(EPS) - 1)])
    what = f"hall {case['n']} ({n} operations) rank {rank} real={real} noise {e:g}: "
    ts = ctx.call("tensors", get_symmetry_adapted_tensors, C + uni(rng, C.shape, e), R, rank, real=real, **({} if e < 2e-10 else dict(atol=1e3 * e)))
    ts = [oracle.as_array(x, "tensor", (3,) * rank) for x in ts]
    ctx.check(len(ts) == want, what + f"{len(ts)} tensors instead of {want}")
    for x in ts:
        y = max(np.abs(oracle.act_tensor(g, x) - x).max() for g in C[rng.permutation(n)[:12]]) / np.linalg.norm(x)
        ctx.check(y < (1e-5 if e < 2e-10 else 0.3), what + f"tensor changes by {y:.2g} under an operation")
    if ts and len(ts) == want:
        e2 = float(EPS[rng.integers(3)])      # up to 1e-8
        ss = ctx.call("symmetrise", apply_intrinsic_symmetry, [x + uni(rng, x.shape, e2) for x in ts])
        ctx.check(len(ss) == ws, what + f"{len(ss)} symmetric tensors instead of {ws} with noise {e2:g}")
        ctx.count("compared:tensors")
    if want:
        ctx.sig("tens", case["n"], rank, real, e)
    ctx.note(lambda: dict(case=case, order=n, rank=rank, tensors=want, symmetric=ws, noise=e))


# --------------------------------------------------------------------------------------------- crystals
def run_cryst(case, ctx, rng):
    import spgrep
    import spglib
    if len(gen._db(case["n"])[0]) > 96 and case["r"] % 4:
        ctx.skip("large cell")
        return
    L, pos, num = gen.crystal(case["n"], rng, norb=2 if len(gen._db(case["n"])[0]) <= 48 else 1, special=bool(rng.integers(2)))
    if rng.integers(2):
        c = gen.variant(L, pos, num, ["shift", "uni", "perm"][rng.integers(3)], rng)
        L, pos, num = c[:3]
    if len(pos) > 200:
        ctx.skip("more than 200 atoms")
        return
    d0 = spglib.get_symmetry_dataset((L, pos, num), symprec=1e-5)
    if d0 is None:
        ctx.skip("spglib finds no symmetry")
        return
    k = gen.kpoint(d0["rotations"].astype(int), rng, far="near")
    spin = bool(rng.integers(2))
    eps = float(rng.choice([1e-10, 1e-9, 1e-8, 1e-7]))
    label = ["positions", "lattice", "both"][rng.integers(3)]
    p2 = pos + uni(rng, pos.shape, eps) if label != "lattice" else pos
    L2 = L * (1 + uni(rng, (3, 3), eps)) if label != "positions" else L
    d2 = spglib.get_symmetry_dataset((L2, p2, num), symprec=1e-5)
    if d2 is None or len(d2["rotations"]) != len(d0["rotations"]) or d2["hall_number"] != d0["hall_number"]:
        ctx.skip("spglib identifies the noisy structure differently")
        return
    f = spgrep.get_spacegroup_spinor_irreps if spin else spgrep.get_spacegroup_irreps
    kw = dict(kpoint=k) if spin else {}
    pa = () if spin else (k,)
    a = oracle.as_tuple(ctx.call("crystal", f, L, pos, num, *pa, **kw), 6 if spin else 4, "result")
    b = oracle.as_tuple(ctx.call("crystal", f, L2, p2, num, *pa, **kw), 6 if spin else 4, "result")
    what = f"crystal of hall {case['n']} ({len(pos)} atoms) k={np.round(k, 4).tolist()} noise {eps:g} on {label}{' spinor' if spin else ''}: "
    ia, ib = (1, 1)
    if spin:
        Ra, ta, Rb, tb = a[3], a[4], b[3], b[4]
    else:
        Ra, ta, Rb, tb = a[1], a[2], b[1], b[2]
    ma, mb = oracle.as_array(a[-1], "mapping", kind="int"), oracle.as_array(b[-1], "mapping", kind="int")
    if len(ma) != len(mb):
        ctx.fail(what + f"little group of {len(mb)} operations instead of {len(ma)}")
        return
    lr, lt, qr, qt = np.asarray(Ra)[ma], np.asarray(ta)[ma], np.asarray(Rb)[mb], np.asarray(tb)[mb]
    n = len(ma)
    # match the operations; translations may wrap around the cell
    d = qt[None] - lt[:, None]
    ok = (lr[:, None] == qr[None]).all(axis=(2, 3)) & (np.abs(d - np.rint(d)).max(axis=2) < 1e-4)
    if not (ok.sum(axis=1) == 1).all():
        ctx.fail(what + "the selected operations change")
        return
    j = ok.argmax(axis=1)
    ph = np.exp(-2j * np.pi * (np.rint(d[np.arange(n), j]) @ k))
    A, B = oracle.as_reps(a[0], n), oracle.as_reps(b[0], n)
    CA, CB = oracle.chars(A) * ph, oracle.chars(B)[:, j]
    if spin:
        U, V = oracle.as_array(a[2], "spin rotations", (n, 2, 2)), oracle.as_array(b[2], "spin rotations", (n, 2, 2))[j]
        g = np.where(np.einsum("iab,iab->i", U.conj(), V).real > 0, 1.0, -1.0)
        x = np.abs(V - g[:, None, None] * U).max()
        ctx.check(x < 1e-6 + 1e3 * eps * np.linalg.cond(L), what + f"spin rotations move by {x:.2g}")
        CA = CA * g
    x = nearest(CA, CB)
    ctx.check(x is not None and x < max(1e-4, 1e4 * eps), what + (f"{len(B)} representations instead of {len(A)}" if x is None else f"characters move by {x:.2g}"))
    ctx.count("compared:" + label)
    if n > 1:
        ctx.sig("cryst", case["n"], label, eps, spin, tuple(sorted(M.shape[1] for M in A)))
    ctx.note(lambda: dict(case=case, atoms=len(pos), k=np.round(k, 5).tolist(), noise=eps, on=label))

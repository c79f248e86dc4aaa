"""C20: symmetry-adapted bases of crystals, composed from the entry points and the projection."""
from .conv import *

RULE = ("one case = one crystal in one cell description at several wave vectors; site representations (displacements, spinors on atoms, scalars) are built from the "
        "returned operations, checked to be representations, projected on all returned irreps; bases are judged for span, rows, block structure of random "
        "invariant Hermitian matrices and level multiplicities; distinct non-trivial = (crystal, cell, k kind, site space, order of the little group, "
        "(dimension, multiplicity) list) with more than one operation in the little group")
ASSUMPTIONS = ["structures whose symmetry spglib does not identify are skipped and counted",
               "copies of one irrep may be mutually non-orthogonal; levels are compared through the generalised eigenvalue problem",
               "site representations larger than 66 (thorough: 120) are skipped and counted"]
CPU_LIMIT = 120


def cases(tier, seed):
    out = []
    V = gen.VARIANTS
    f = 4 if tier == "quick" else 24
    for h in range(1, 531):
        n = len(gen._db(h)[0])
        for r in range(f):
            v = V[(h + 3 * r + seed) % len(V)]
            if n > 48 or (v == "super" and n > 16):
                v = ["prim", "uniprim"][r % 2]
            out.append(dict(h=h, v=v, r=r))
    for s in STRUCTURES:
        for v in V:
            for r in range(1 if tier == "quick" else 8):
                out.append(dict(s=s, v=v, r=r))
    return out


def cost(c):
    return (len(gen._db(c["h"])[0]) if "h" in c else 40) * (3 if c["v"] == "super" else 1)


def site_rep(pos, R, t, k, M):
    """Gamma(g) = exp(-2 pi i k.h) on sites, times M(g): None when g does not map atoms onto atoms"""
    N, n, d = len(pos), len(R), M.shape[1]
    y = np.einsum("gab,nb->gna", R.astype(float), pos) + t[:, None]
    G = np.zeros((n, N, d, N, d), complex)
    for g in range(n):
        D = y[g][:, None] - pos[None]
        e = np.abs(D - np.rint(D)).max(axis=2)
        to = e.argmin(axis=1)
        if e.min(axis=1).max() > 1e-3 or len(set(to.tolist())) != N:
            return None
        hv = np.rint(y[g] - pos[to])
        G[g, to, :, np.arange(N), :] = np.exp(-2j * np.pi * (hv @ k))[:, None, None] * M[g][None]
    return G.reshape(n, N * d, N * d)


def run(case, ctx):
    import spgrep
    from spgrep.representation import project_to_irrep
    rng = seeded(case, ctx)
    MAXDIM = 66 if ctx.tier == "quick" else 120
    for tries in range(4):
        L, pos, num = make_crystal(case, rng) if tries < 2 or "s" in case else gen.crystal(case["h"], rng, norb=1, special=True)
        c = gen.variant(L, pos, num, case["v"], rng)
        if c is not None and len(c[1]) * 3 <= MAXDIM:
            break
    if c is None:
        ctx.skip("spglib finds no primitive cell")
        return
    L, pos, num, _ = c
    N = len(pos)
    if N * 3 > MAXDIM:
        kinds_of_site = ["scalar"] if N <= MAXDIM else []
    else:
        kinds_of_site = ["disp", "disp", "spin", "scalar"] if N * 3 <= 48 else ["disp", "spin"]
    if not kinds_of_site:
        ctx.skip("site representation too large")
        return
    ds = dataset((L, pos, num), 1e-5)
    if ds is None:
        ctx.skip("spglib finds no symmetry")
        return
    R0 = ds["rotations"].astype(int)
    for kind in [gen.K_KINDS[rng.integers(len(gen.K_KINDS))], "special", "special2"]:
        k = gen.kpoint(R0, rng, kind)
        kk, B = recip(L, k, rng)
        kw = {} if B is None else dict(reciprocal_lattice=B)
        kw["method"] = METHODS[rng.integers(2)]
        site = kinds_of_site[rng.integers(len(kinds_of_site))]
        what = f"{case} spacegroup {ds['international']} k={np.round(k, 4).tolist()} {site}: "
        if site == "spin":
            v = ctx.call("crystal_spinor_irreps", spgrep.get_spacegroup_spinor_irreps, L, pos, num, kpoint=kk, **kw)
            irreps, z, U, R, t, mp = oracle.as_tuple(v, 6, "result")
        else:
            v = ctx.call("crystal_irreps", spgrep.get_spacegroup_irreps, L, pos, num, kk, **kw)
            irreps, R, t, mp = oracle.as_tuple(v, 4, "result")
        R = oracle.as_array(R, "rotations", kind="int")
        t = oracle.as_array(t, "translations", (len(R), 3))
        mp = oracle.as_array(mp, "mapping", kind="int")
        if oracle.little(R, k, taus=t[(R == oracle.I3).all(axis=(1, 2))], lo=1e-5, hi=1e-4) is None:
            ctx.skip("k too close to call")
            continue
        lr, lt = R[mp], t[mp]
        n = len(mp)
        reps = oracle.as_reps(irreps, n)
        if site == "disp":
            M = oracle.cart(L, lr).astype(complex)
        elif site == "spin":
            M = oracle.as_array(U, "spin rotations", (n, 2, 2))
        else:
            M = np.ones((n, 1, 1), complex)
        G = site_rep(pos, lr, lt, k, M)
        if not ctx.check(G is not None, what + "a returned operation does not map the atoms onto themselves"):
            continue
        T, Lv = oracle.conv_table(lr, lt)
        if T is None:
            ctx.skip("operations found by spglib do not form a group")
            continue
        om = np.exp(-2j * np.pi * (Lv @ k))
        if site == "spin":
            om = om * oracle.as_array(z, "factor system", (n, n))
        w = oracle.law_defect(G, T, om)
        if not ctx.check(w < 2e-4, what + f"the site representation violates the product law by {w:.3g}"):
            continue
        judge(ctx, what, G, reps, lr, lt, k, rng, project_to_irrep, case, kind, site)
    ctx.note(lambda: dict(case=case, spacegroup=ds["international"], atoms=N))


def judge(ctx, what, G, reps, lr, lt, k, rng, project, case, kind, site):
    n, dim = len(G), G.shape[1]
    E = (lr == oracle.I3).all(axis=(1, 2))
    # subspace in which the lattice translations act as exp(-2 pi i k.t)
    P = np.einsum("g,gab->ab", np.exp(2j * np.pi * (lt[E] @ k)), G[E]) / E.sum()
    want = int(np.rint(np.trace(P).real))
    ctx.check(abs(want * E.sum() - dim) < 0.5, what + f"{want} states at k expected {dim / E.sum()}")
    A = rng.normal(size=(dim, dim)) + 1j * rng.normal(size=(dim, dim))
    A = P @ (A + A.conj().T) @ P
    H = np.zeros_like(A)
    for g in G:
        H += g @ A @ g.conj().T
    H /= n
    sc = np.abs(H).max() + 1e-9
    total, levels, allb, shape = 0, [], [], []
    per = []
    for a, D in enumerate(reps):
        o = ctx.observe("project", project, G, D)
        if o.exc is not None:
            ctx.fail(what + f"projection on irrep {a} raised {type(o.exc).__name__}: {str(o.exc)[:120]}")
            return
        m = int(np.rint((np.vdot(np.einsum("kii->k", D), np.einsum("kii->k", G)) / n).real))
        d = D.shape[1]
        B = [oracle.as_array(b, "basis set", (d, dim)) for b in o.value]
        if not ctx.check(len(B) == m, what + f"irrep {a} (dim {d}) occurs {m} times, {len(B)} sets returned"):
            return
        shape.append((d, m))
        total += d * m
        if not m:
            continue
        B = np.array(B)                    # copy, row, component
        tr = np.abs(np.einsum("gxy,ciy->gcix", G, B) - np.einsum("cjx,gji->gcix", B, D)).max()
        ctx.check(tr < 2e-5, what + f"irrep {a}: basis does not transform as the irrep ({tr:.2g})")
        S = np.einsum("aix,bjx->iajb", B.conj(), B)
        h = np.einsum("aix,xy,bjy->iajb", B.conj(), H, B)
        off = max(np.abs(h[i, :, j]).max() for i in range(d) for j in range(d) if i != j) if d > 1 else 0
        same = np.abs(h[np.arange(d), :, np.arange(d)] - h[0, :, 0]).max()
        ctx.check(off < 1e-4 * sc, what + f"irrep {a}: elements between rows {off:.2g}")
        ctx.check(same < 1e-4 * sc, what + f"irrep {a}: blocks of rows differ by {same:.2g}")
        s = np.linalg.eigvalsh(S[0, :, 0])
        if not ctx.check(s[0] > 1e-6, what + f"irrep {a}: copies linearly dependent ({s[0]:.2g})"):
            return
        Li = np.linalg.inv(np.linalg.cholesky(S[0, :, 0]))
        ev = np.linalg.eigvalsh(Li @ h[0, :, 0] @ Li.conj().T)
        levels += list(np.repeat(ev, d))
        per.append(B.reshape(-1, dim))
        allb.append(B.reshape(-1, dim))
    ctx.check(total == want, what + f"the sets contain {total} states, {want} expected: {shape}")
    if not allb or total != want:
        return
    for a in range(len(per)):
        for b in range(a):
            x = np.abs(per[a].conj() @ per[b].T).max()
            y = np.abs(per[a].conj() @ H @ per[b].T).max()
            if x > 1e-5 or y > 1e-4 * sc:
                ctx.fail(what + f"different irreps not separated: overlap {x:.2g}, matrix element {y:.2g}")
    Q = np.concatenate(allb)
    sv = np.linalg.svd(Q, compute_uv=False)
    ctx.check(sv[-1] > 1e-4, what + f"basis does not span the space (smallest singular value {sv[-1]:.2g})")
    x = np.abs(Q @ P.T - Q).max()
    ctx.check(x < 2e-5, what + f"basis leaves the space of wave vector k by {x:.2g}")
    # levels of H inside the space, from an orthonormal basis of the image of P
    w, V = np.linalg.eigh(P)
    V = V[:, -want:]
    ref = np.linalg.eigvalsh(V.conj().T @ H @ V)
    dl = np.abs(np.sort(levels) - ref).max()
    ctx.check(dl < 1e-4 * sc * dim, what + f"levels differ by {dl:.2g}")
    ctx.count("site:" + site)
    ctx.count("basis_vectors", total)
    if n > 1:
        ctx.sig(case.get("h", case.get("s")), case["v"], kind, site, n, tuple(sorted(shape)))

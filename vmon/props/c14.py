"""C14: purity (arguments, global state, history, processes, threads)."""
import copy, os, pickle, random, subprocess, sys, threading, warnings
from .common import *
from .. import purity as pu

RULE = ("one case = one mix of related requests over all public functions: 'sib' evaluates a request and variants of it that differ in one argument "
        "alone in a fresh process and as two histories; 'long' repeats calls after some 300 others; 'seq' calls them with read-only arguments, compares arguments and global random "
        "state bitwise, overwrites everything returned and repeats them in shuffled orders; 'proc' recomputes them in another process with another hash "
        "seed and order; 'thread' runs them from four threads at a time with a 1e-6 s switch interval, sharing argument arrays; 'layout' passes "
        "Fortran-ordered, strided and negative-stride views; distinct non-trivial = (kind, function, size of the result) compared at least once")
ASSUMPTIONS = ["values compared to 1e-8", "for other memory layouts characters and integer results are compared, since rounding may select another basis"]
CPU_LIMIT = 200


def cases(tier, seed):
    f = 1 if tier == "quick" else 12
    return [dict(t="sib", i=i) for i in range(400 * f)] + [dict(t="long", i=i) for i in range(24 * f)] + [dict(t="seq", i=i) for i in range(400 * f)] + [dict(t="proc", i=i) for i in range(80 * f)] + \
           [dict(t="thread", i=i) for i in range(80 * f)] + [dict(t="layout", i=i) for i in range(120 * f)]


def cost(c):
    return dict(long=12, proc=9, thread=5, seq=2, sib=1.5, layout=1)[c["t"]]


def size(v):
    return tuple(np.shape(a) for a in pu.arrays(v))[:3]


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate(), tuple(sorted(np.geterr().items())), len(os.environ), os.getcwd())


def frozen(req):
    path, a, k = copy.deepcopy(req)
    for x in pu.arrays(list(a)) + pu.arrays(list(k.values())):
        x.setflags(write=False)
    return path, a, k


def raw(v):
    return [(x.shape, x.dtype.str, x.tobytes()) for x in pu.arrays(v)] + [repr(x) for x in v if not isinstance(x, (np.ndarray, list))]


def scribble(v, rng):
    for x in pu.arrays(v):
        if x.flags.writeable:
            if x.dtype.kind in "fc":
                x[...] = np.nan if rng.integers(2) else 7.5
            elif x.dtype.kind in "iu":
                x[...] = 99
            elif x.dtype.kind == "b":
                x[...] = ~x
    if isinstance(v, list):
        v.clear()
    elif isinstance(v, tuple):
        for x in v:
            if isinstance(x, list):
                x.clear()


def run(case, ctx):
    rng = seeded(case, ctx)
    seed = (ctx.seed, case["t"], case["i"])
    globals()["run_" + case["t"]](case, ctx, rng, seed)


def name(req):
    return req[0].split(":")[1]


def run_seq(case, ctx, rng, seed):
    reqs = pu.requests(seed, 14)
    np.random.seed(case["i"])
    ref = []
    for rnd in range(3):
        order = range(len(reqs)) if rnd == 0 else rng.permutation(len(reqs))
        for i in order:
            ro = rnd != 1
            req = frozen(reqs[i]) if ro else copy.deepcopy(reqs[i])
            before = raw([*req[1], *req[2].values()])
            st = state()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = pu.evaluate(req)
            ctx.events += 2
            ctx.count("call:" + name(req))
            ctx.check(raw([*req[1], *req[2].values()]) == before, f"{name(req)} modified its arguments")
            ctx.check(state() == st, f"{name(req)} changed global state")
            if rnd == 0:
                ref.append(copy.deepcopy(v))
                ctx.sig("seq", name(req), v[0], size(v[1]))
            else:
                d = pu.difference(v, ref[i])
                ctx.check(d is None, f"{name(req)} gives another result when repeated (round {rnd}, {'read-only' if ro else 'writable'} arguments, "
                                     f"returned arrays overwritten): {d}")
            if v[0] == "exception" and ro and rnd == 0:
                w = pu.evaluate(copy.deepcopy(reqs[i]))
                ctx.check(w == v, f"{name(req)} fails only with read-only arguments: {v[1]}")
            scribble(v[1], rng)
    ctx.note(lambda: dict(case=case, requests=[name(r) for r in reqs]))


def run_sib(case, ctx, rng, seed):
    reqs = pu.siblings(seed)
    alone = [pu.pristine([r]) for r in reqs]
    for r, v in zip(reqs, alone):
        ctx.check(v is not None, f"{name(r)} ends the process")
    # a refused variant is no valid request: it stays in the history, its outcome is not compared
    order = [int(i) for i in rng.permutation(len(reqs))]
    for o in (order, order[::-1]):
        res = pu.pristine([reqs[i] for i in o])
        ctx.events += len(o)
        if not ctx.check(res is not None, f"{name(reqs[0])} ends the process"):
            continue
        for i, v in zip(o, res):
            if alone[i][0][0] == "exception" or any(np.isnan(x).any() for x in pu.arrays(alone[i][0]) if x.dtype.kind in "fc"):
                continue        # a cell that its own operations do not keep may also give numbers that mean nothing
            d = pu.difference(v, alone[i][0])
            ctx.check(d is None, f"{name(reqs[i])} gives another result after calls with related arguments than as the first call of a process: {d}")
            ctx.sig("sib", name(reqs[i]), v[0], size(v[1]))
            ctx.count("sibling_calls")


def run_long(case, ctx, rng, seed):
    """a history of several hundred calls of one function and its relatives, then the first calls again"""
    fill = []
    tgt = pu.requests((*seed, "t"), 6, light=True)
    want = {r[0] for r in tgt}
    j = 0
    while len(fill) < 260 and j < 60:
        fill += [r for r in pu.requests((*seed, j), 60, light=True) if r[0] in want or j % 8 == 0]
        j += 1
    hist = tgt + fill[:300] + tgt
    n = len(tgt)
    keep = list(range(n)) + list(range(len(hist) - n, len(hist)))
    res = pu.pristine(hist, keep)
    if not ctx.check(res is not None, "a long history of calls ends the process"):
        return
    ctx.events += len(hist)
    ctx.count("long_history_calls", len(hist))
    for i, r in enumerate(tgt):
        d = pu.difference(res[n + i], res[i])
        ctx.check(d is None, f"{name(r)} gives another result after {len(hist) - n} other calls: {d}")
        ctx.sig("long", name(r), size(res[i][1]))


def run_proc(case, ctx, rng, seed):
    jobs, ref = [], {}
    for j in range(4):
        s = (*seed, j)
        reqs = pu.requests(s, 12)
        for i, r in enumerate(reqs):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ref[(s, i)] = pu.evaluate(copy.deepcopy(r))
            ctx.events += 2
        jobs.append((s, 12, False, [int(i) for i in rng.permutation(len(reqs))]))
    jobs = [jobs[i] for i in rng.permutation(len(jobs))]
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 10 ** 6))))
    p = subprocess.run([sys.executable, "-m", "vmon.purity"], input=pickle.dumps(jobs), capture_output=True, env=env,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), timeout=180)
    if p.returncode:
        raise RuntimeError("child process failed: " + p.stderr.decode()[-500:])
    res = pickle.loads(p.stdout)
    for (s, i), v in ref.items():
        nm = name(pu.requests(s, 12)[i]) if i == 0 else None
        d = pu.difference(v, res[(s, i)])
        if d is not None:
            nm = name(pu.requests(s, 12)[i])
        ctx.check(d is None, f"{nm}: result differs in another process (hash seed {env['PYTHONHASHSEED']}, other order): {d}")
        ctx.sig("proc", s, i)
        ctx.count("compared_across_processes")
    ctx.count("child_processes")


def run_thread(case, ctx, rng, seed):
    reqs = pu.requests(seed, 12, light=True)
    warnings.simplefilter("ignore")
    ref = [pu.evaluate(copy.deepcopy(r)) for r in reqs]
    shared = [frozen(r) for r in reqs]
    old = sys.getswitchinterval()
    log = []
    ids = {}
    mo = sys.monitoring
    got = []

    def onstart(code, off):
        if "spgrep" not in code.co_filename:
            return mo.DISABLE
        log.append(threading.get_ident())
    try:
        mo.use_tool_id(4, "vmon-threads")
        mo.register_callback(4, mo.events.PY_START, onstart)
        mo.set_events(4, mo.events.PY_START)
        sys.setswitchinterval(1e-6)
        bar = threading.Barrier(4)
        orders = [rng.permutation(len(reqs)) for _ in range(4)]
        if rng.integers(2):
            orders = [orders[0]] * 4     # all threads in lock step on the same request

        def work(w):
            bar.wait()
            for i in orders[w]:
                r = shared[i] if (w % 2 == 0) else copy.deepcopy(reqs[i])
                got.append((w, int(i), pu.evaluate(r)))
        th = [threading.Thread(target=work, args=(w,)) for w in range(4)]
        for x in th:
            x.start()
        for x in th:
            x.join()
    finally:
        sys.setswitchinterval(old)
        mo.set_events(4, 0)
        mo.free_tool_id(4)
    ctx.check(len(got) == 4 * len(reqs), f"only {len(got)} of {4 * len(reqs)} threaded calls finished")
    for w, i, v in got:
        d = pu.difference(v, ref[i])
        ctx.check(d is None, f"{name(reqs[i])} gives another result in thread {w}: {d}")
        ctx.sig("thread", name(reqs[i]), size(v[1]))
    sw = sum(a != b for a, b in zip(log, log[1:]))
    ctx.count("threaded_calls", len(got))
    ctx.count("thread_switches_inside_spgrep", sw)
    ctx.events += 2 * len(got)
    import zlib
    for x in log:
        ids.setdefault(x, len(ids))
    ctx.sig("interleaving", zlib.crc32(bytes(ids[x] for x in log)))
    ctx.note(lambda: dict(case=case, calls=len(got), switches=sw, function_entries=len(log)))


def relayout(v, rng):
    if isinstance(v, np.ndarray) and v.ndim:
        c = rng.integers(4)
        if c == 0:
            return np.asfortranarray(v)
        if c == 1:
            big = np.zeros(tuple(2 * s for s in v.shape), v.dtype)
            b = big[tuple(slice(None, None, 2) for _ in v.shape)]
            b[...] = v
            return b
        if c == 2:
            return np.ascontiguousarray(v[::-1])[::-1]
        return v
    if isinstance(v, list):
        return [relayout(x, rng) for x in v]
    return v


def invariants(v):
    """what must not depend on rounding: structure, integers, characters of stacks of square matrices"""
    out = []
    for p, t, x in pu.flat(v):
        if t == "num" and x.dtype.kind in "fc" and x.ndim == 3 and x.shape[1] == x.shape[2]:
            x = np.einsum("kii->k", x.astype(complex))
            x = np.array(list(x.shape) + [np.round(np.abs(x) ** 2, 5).sum()])
        elif t == "num" and x.dtype.kind in "fc" and x.ndim:
            x = np.array(x.shape)
        out.append(x if t == "num" else (p, x))
    return out


def run_layout(case, ctx, rng, seed):
    for r in pu.requests(seed, 12):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a = pu.evaluate(copy.deepcopy(r))
            lr = (r[0], tuple(relayout(x, rng) for x in r[1]), {k: relayout(x, rng) for k, x in r[2].items()})
            before = raw([*lr[1], *lr[2].values()])
            b = pu.evaluate(lr)
        ctx.events += 4
        ctx.check(raw([*lr[1], *lr[2].values()]) == before, f"{name(r)} modified its arguments")
        if a[0] == "ok" and a[1] is not None and isinstance(a[1], (list, tuple)) and "irreps" in r[0]:
            d = pu.difference(sorted_inv(a), sorted_inv(b), tol=1e-4)
        else:
            d = pu.difference(("x", invariants(a)), ("x", invariants(b)), tol=1e-4)
        ctx.check(d is None, f"{name(r)}: result depends on the memory layout of its arguments: {d}")
        ctx.sig("layout", name(r), size(a[1]))
        ctx.count("layout_compared")


def sorted_inv(v):
    """the order of irreps may depend on rounding; compare as multisets of (shape, norms)"""
    return (v[0], sorted(repr(np.round(np.asarray(x, dtype=float), 3).tolist()) for x in invariants(v[1]) if not isinstance(x, tuple)))

"""Runtime of the checks: cases -> forked workers -> oracle verdicts -> evidence / replay / exit code."""
from __future__ import annotations
import hashlib, importlib, json, os, pickle, select, signal, sys, time, traceback, warnings
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVID = os.path.join(ROOT, "evidence")


class CaseAbort(Exception):
    """The case cannot go on (violation or skip already recorded)."""


class CpuLimit(BaseException):
    """CPU guard of a case expired."""


class Call:
    """One observed call: what was asked, what came back."""
    __slots__ = ("name", "value", "exc", "warns", "dt", "tb")

    def __init__(self, name):
        self.name, self.value, self.exc, self.warns, self.dt = name, None, None, [], 0.0


class Ctx:
    def __init__(self, case, seed, tier):
        self.case, self.seed, self.tier = case, seed, tier
        self.fails, self.knowns, self.skips = [], [], []
        self.counts = Counter()
        self.sigs = set()
        self.events = 0
        self.sample = None

    # verdicts ---------------------------------------------------------------
    def fail(self, msg):
        if len(self.fails) < 20:
            self.fails.append(str(msg)[:600])

    def check(self, ok, msg):
        self.counts["oracle_checks"] += 1
        if not ok:
            self.fail(msg() if callable(msg) else msg)
        return ok

    def known(self, kid, msg):
        self.knowns.append((kid, str(msg)[:300]))

    def skip(self, why):
        self.skips.append(why)

    def count(self, key, n=1):
        self.counts[key] += n

    def sig(self, *key):
        """Signature of one non-trivial thing that was judged."""
        self.sigs.add(tuple(key))

    def note(self, f):
        """Sample for the evidence file; a case whose requests were all skipped has none."""
        try:
            self.sample = f()
        except NameError:
            self.sample = None

    # observation -------------------------------------------------------------
    def observe(self, name, fn, *a, **k):
        """Call the code under test; record call/return events; never raises ordinary exceptions."""
        c = Call(name)
        self.events += 1
        self.counts["call:" + name] += 1
        t0 = time.perf_counter()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                c.value = fn(*a, **k)
            except Exception as e:  # noqa: BLE001
                c.exc = e
                c.tb = None
        c.dt = time.perf_counter() - t0
        c.warns = [str(x.message) for x in w if not issubclass(x.category, DeprecationWarning)]
        self.events += 1
        return c

    def call(self, name, fn, *a, **k):
        """A valid request: an exception is a violation and ends the case."""
        c = self.observe(name, fn, *a, **k)
        if c.exc is not None:
            self.fail(f"{name} raised {type(c.exc).__name__}: {str(c.exc)[:200]} on a valid request")
            raise CaseAbort()
        return c.value




def known_ids():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    for line in open(p):
        if line.startswith("known:"):
            f = dict(x.split("=", 1) for x in line.split()[1:3])
            out[(f["property"], f["id"])] = line.split(None, 3)[3].strip()
    return out


def _run_case(mod, case, seed, tier, limit):
    ctx = Ctx(case, seed, tier)
    harness = None

    def onprof(*_):
        raise CpuLimit()

    signal.signal(signal.SIGPROF, onprof)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        try:
            mod.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except CaseAbort:
        pass
    except CpuLimit:
        ctx.fail(f"no answer within {limit} s of CPU time")
    except Malformed as e:
        ctx.fail(f"malformed result: {e}")
    except (NameError, ImportError):
        harness = traceback.format_exc()
    except Exception as e:  # noqa: BLE001
        if ctx.events:
            # the oracles are total on results of the documented form (every run on the tree confirms it)
            where = traceback.extract_tb(e.__traceback__)[-1]
            ctx.fail(f"malformed result: {type(e).__name__}: {str(e)[:150]} while judging ({os.path.basename(where.filename)}:{where.lineno})")
        else:
            harness = traceback.format_exc()
    return ctx, harness


class Malformed(Exception):
    """A result does not have the documented form."""


def _worker(mod, cases, order, nxt, lock, stop, wfd, seed, tier, limit):
    import numpy as np
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    from . import mon
    m = mon.Monitor()
    m.start()
    out = os.fdopen(wfd, "wb")

    def put(obj):
        pickle.dump(obj, out)
        out.flush()

    while not stop.value:
        with lock:
            i = nxt.value
            nxt.value = i + 1
        if i >= len(cases):
            break
        put(("start", order[i]))
        t = time.perf_counter()
        ctx, harness = _run_case(mod, cases[order[i]], seed, tier, limit)
        put(("done", order[i], ctx.fails, ctx.knowns, ctx.skips, dict(ctx.counts), ctx.sigs, ctx.events, harness,
             time.perf_counter() - t, ctx.sample))
    put(("cov", m.report()))
    out.close()
    os._exit(0)


def run_check(prop, tier, seed, jobs=None, replay=None, limit=None, wall=None, verbose=False):
    import multiprocessing as mp
    t0 = time.time()
    mod = importlib.import_module(f"vmon.props.{prop.lower()}")
    import spgrep  # noqa: F401  (the tree under test must import)
    src = os.path.dirname(os.path.abspath(spgrep.__file__))
    want = os.path.abspath(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "spgrep"))
    if src != want:
        print(f"ERROR: spgrep imported from {src}, expected {want}")
        return 2
    if replay:
        rep = json.load(open(replay))
        cases = [rep["case"]]
        seed, tier = rep["seed"], rep["tier"]
    else:
        cases = list(mod.cases(tier, seed))
    limit = limit or getattr(mod, "CPU_LIMIT", 60)
    # no new cases after `wall` seconds, the running ones are ended 60 s later (VERIF_WALL: longer explorations)
    wall = wall or float(os.environ.get("VERIF_WALL", 0)) or (640 if tier == "quick" else 780)
    stop_after = 8
    order = list(range(len(cases)))
    import random
    random.Random(seed).shuffle(order)
    if hasattr(mod, "cost") and tier == "quick":   # expensive first keeps the tail short
        order.sort(key=lambda i: -mod.cost(cases[i]))
    nw = min(jobs or os.cpu_count() or 1, max(1, len(cases)))
    ctxm = mp.get_context("fork")
    nxt, stop, lock = ctxm.Value("q", 0), ctxm.Value("b", 0), ctxm.Lock()
    sys.stdout.flush()
    pids, fds, bufs, current = [], {}, {}, {}
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _worker(mod, cases, order, nxt, lock, stop, wr, seed, tier, limit)
            except BaseException:  # noqa: BLE001
                os._exit(3)
            os._exit(0)
        os.close(wr)
        fds[r] = pid
        bufs[r] = b""
    done = 0
    fails, knowns, skips, counts, sigs, events, harness, samples = [], [], Counter(), Counter(), set(), 0, [], []
    funcs, lines, total_lines = Counter(), {}, {}
    times = []
    truncated = False
    import io
    while fds:
        if time.time() - t0 > wall:
            truncated = True
            stop.value = 1
        if time.time() - t0 > wall + 60:
            for r, pid in list(fds.items()):
                os.kill(pid, signal.SIGKILL)
        rl, _, _ = select.select(list(fds), [], [], 1.0)
        for r in rl:
            data = os.read(r, 1 << 20)
            if not data:
                pid = fds.pop(r)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                if st != 0 and not truncated:
                    i = current.get(r)
                    if i is not None:
                        sigm = st & 0x7F
                        fails.append((i, [f"process died (status {st}, signal {sigm}) while this case was running"]))
                    else:
                        harness.append((None, f"worker died with status {st}"))
                continue
            bufs[r] += data
            bio = io.BytesIO(bufs[r])
            pos = 0
            while True:
                try:
                    rec = pickle.load(bio)
                except (EOFError, pickle.UnpicklingError, IndexError, ValueError):
                    break
                except Exception:  # truncated pickles raise several types
                    break
                pos = bio.tell()
                if rec[0] == "start":
                    current[r] = rec[1]
                elif rec[0] == "done":
                    _, i, f, kn, sk, ct, sg, ev, hx, dt, smp = rec
                    current.pop(r, None)
                    done += 1
                    times.append((dt, i))
                    if f:
                        fails.append((i, f))
                    for k in kn:
                        knowns.append((i,) + tuple(k))
                    for s in sk:
                        skips[s] += 1
                    counts.update(ct)
                    sigs |= sg
                    events += ev
                    if smp is not None and len(samples) < 6:
                        samples.append(smp)
                    if hx:
                        harness.append((i, hx))
                    if len(fails) >= stop_after or len(harness) >= stop_after:
                        stop.value = 1
                else:
                    rep_ = rec[1]
                    funcs.update(rep_["calls"])
                    for mn, s in rep_["lines"].items():
                        lines.setdefault(mn, set()).update(s)
                    total_lines.update(rep_["total"])
            bufs[r] = bufs[r][pos:]
    # known findings --------------------------------------------------------------
    kid = known_ids()
    kseen = Counter()
    for i, k, msg in knowns:
        if (prop, k) in kid:
            kseen[k] += 1
        else:
            fails.append((i, [f"[{k}] {msg}"]))
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for k, n in sorted(kseen.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {kid[(prop, k)]} ({n} occurrences in this run)")
    wall_s = time.time() - t0
    times.sort(reverse=True)
    cov = dict(
        evaluations=done,
        distinct_nontrivial=len(sigs),
        rule=getattr(mod, "RULE", ""),
        samples=(samples or [cases[order[0]]] if cases else []),
        cases_generated=len(cases),
        call_return_events=events,
        oracle_checks=counts.pop("oracle_checks", 0),
        observed={k: counts[k] for k in sorted(counts)},
        skipped={k: skips[k] for k in sorted(skips)},
        spgrep_function_calls={k: funcs[k] for k in sorted(funcs)},
        spgrep_lines_reached={mn: f"{len(lines.get(mn, ()))}/{len(total_lines[mn])}" for mn in sorted(total_lines)},
        known_findings=dict(kseen),
        slowest_case_s=round(times[0][0], 3) if times else 0,
        truncated_by_wall_limit=truncated,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall_s, 2), violations=len(fails))
    if not replay:
        with open(os.path.join(EVID, f"{prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    if verbose:
        print(json.dumps(cov, indent=1, default=str)[:6000])
        print("slowest", [(round(a, 2), cases[i]) for a, i in times[:5]])
    if fails:
        for i, msgs in fails[:8]:
            case = cases[i]
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(EVID, "replay", f"{prop}-{h}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=prop, tier=tier, seed=seed, case=case, messages=msgs), fh, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            for m_ in msgs[:4]:
                print("   ", m_)
            print("    case:", json.dumps(case)[:300])
        return 1
    if harness:
        print("ERROR: harness failure (inconclusive)", harness[0][0] if harness[0][0] is None else cases[harness[0][0]])
        print(harness[0][1])
        return 2
    if done == 0 or events == 0 or (not sigs and not replay):
        print(f"ERROR: inconclusive, nothing was observed (cases={done}, events={events}, signatures={len(sigs)})")
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} cases={done}/{len(cases)} events={events} "
          f"distinct={len(sigs)} oracle_checks={cov['oracle_checks']} wall={wall_s:.1f}s")
    return 0

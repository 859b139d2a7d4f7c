"""Property-based testing engine: recorded choices, shrinking, parallel running, evidence."""
import hashlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken on this case."""
    def __init__(self, msg, kind="mismatch", detail=""):
        Exception.__init__(self, msg)
        self.msg, self.kind, self.detail = msg, kind, detail


class Discard(Exception):
    """The case falls outside the property's domain (counted)."""


class Src:
    """Source of choices. Every choice is recorded; 0 is always the simplest."""
    MAX = 6000

    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.pre = choices
        self.rec = []
        self.spans = []

    def n(self, k):
        """Integer in [0, k)."""
        if k <= 1:
            return 0
        i = len(self.rec)
        if self.pre is not None:
            v = self.pre[i] if i < len(self.pre) else 0
            if v >= k:
                v %= k
        elif i > self.MAX:
            v = 0
        else:
            v = self.rng.randrange(k)
        self.rec.append(v)
        return v

    def r(self, lo, hi):
        return lo + self.n(hi - lo + 1)

    def p(self, pct):
        """True with pct% probability; the simplest choice is False."""
        if pct <= 0:
            return False
        if pct >= 100:
            return True
        return self.n(100) >= 100 - pct

    def c(self, seq):
        return seq[self.n(len(seq))]

    def w(self, pairs):
        """Weighted choice among (weight, value)."""
        tot = 0
        for x, _ in pairs:
            tot += x
        v = self.n(tot)
        for x, y in pairs:
            if v < x:
                return y
            v -= x
        return pairs[0][1]

    def many(self, lo, hi, more=70):
        """Yield between lo and hi times; each element is a deletable span."""
        i = 0
        while i < hi:
            s = len(self.rec)
            if i >= lo and not self.p(more):
                return
            yield i
            self.spans.append((s, len(self.rec)))
            i += 1

    def sub(self, seq, lo=1, hi=3):
        """A list of lo..hi distinct members."""
        seq = list(seq)
        out = []
        k = self.r(lo, min(hi, len(seq)))
        for _ in range(k):
            out.append(seq.pop(self.n(len(seq))))
        return out

    def perm(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.n(len(seq))))
        return out


def case_seed(seed, prop, sub, i):
    h = hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, sub, i)).encode()).digest()
    return int.from_bytes(h[:8], "little")


def digest(x):
    if isinstance(x, str):
        x = x.encode("utf8", "surrogatepass")
    return hashlib.blake2b(x, digest_size=8).digest()


class Info:
    __slots__ = ("nontrivial", "key", "labels", "sample")

    def __init__(self, nontrivial, key, labels=(), sample=None):
        self.nontrivial, self.key, self.labels, self.sample = nontrivial, key, labels, sample


class Sub:
    """One generated-input search belonging to a property."""
    def __init__(self, name, fn, quick, thorough, rule, variant="plain", timeout_ms=20000):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.rule, self.variant, self.timeout_ms = rule, variant, timeout_ms


class Env:
    def __init__(self, exes, timeout_ms=20000):
        from . import drv
        self._drv = drv
        self.exes = exes
        self.drivers = {}
        self.d = None
        self.state = {}

    def use(self, sub):
        d = self.drivers.get(sub.variant)
        if d is None:
            d = self.drivers[sub.variant] = self._drv.Driver(self.exes[sub.variant])
        d.timeout_ms = sub.timeout_ms
        self.d = d
        return d

    def close(self):
        for d in self.drivers.values():
            d.close()


def _is_infra(e):
    return isinstance(e, (OSError, MemoryError, KeyboardInterrupt)) or (isinstance(e, RuntimeError) and "driver died" in str(e))


class OracleTimeout(BaseException):
    pass


def _vtalrm(*_):
    if os.environ.get("VERIF_DEBUG"):
        traceback.print_stack()
    raise OracleTimeout()


ORACLE_CPU_S = 4


def run_case(sub, env, src):
    """Returns (Info|None, Violation|None). Discard -> (None, None).
    The oracle's own CPU time is bounded; a case it cannot decide in that is discarded (the tool under test has its own, wall-clock, limit)."""
    env.use(sub)
    signal.signal(signal.SIGVTALRM, _vtalrm)
    signal.setitimer(signal.ITIMER_VIRTUAL, ORACLE_CPU_S)
    try:
        return sub.fn(src, env), None
    except OracleTimeout:
        return None, None
    except Violation as v:
        return None, v
    except Discard:
        return None, None
    except Exception as e:
        if _is_infra(e):
            raise
        tb = traceback.format_exc()
        return None, Violation("output could not be interpreted: " + tb.splitlines()[-1], kind="uninterpretable", detail=tb)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def shrink(sub, env, choices, kind, budget_s=60, max_evals=8000):
    t_end = time.time() + budget_s
    evals = 0
    best = list(choices)
    spans = []

    def attempt(ch):
        nonlocal best, spans, evals
        if time.time() > t_end or evals > max_evals:
            return False
        evals += 1
        s = Src(choices=ch)
        try:
            _, v = run_case(sub, env, s)
        except RecursionError:
            return False
        if v is not None and v.kind == kind:
            rec = s.rec
            while rec and rec[-1] == 0:
                rec.pop()
            if (len(rec), rec) < (len(best), best):
                best = rec
                spans = s.spans
                return True
        return False

    s = Src(choices=best)
    run_case(sub, env, s)
    spans = s.spans
    attempt(list(best))
    improved = True
    while improved and time.time() < t_end and evals < max_evals:
        before = list(best)
        # delete spans, longest first
        i = 0
        order = sorted(set(spans), key=lambda x: -(x[1] - x[0]))
        while i < len(order):
            a, b = order[i]
            if a < len(best) and attempt(best[:a] + best[b:]):
                order = sorted(set(spans), key=lambda x: -(x[1] - x[0]))
                i = 0
                continue
            i += 1
            if time.time() > t_end:
                break
        # delete chunks
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0:
                if not attempt(best[:i] + best[i + size:]):
                    i -= max(1, size // 2)
                else:
                    i = min(i, len(best) - size)
            if time.time() > t_end:
                break
        # zero chunks, then lower single values
        for size in (16, 8, 4, 2):
            for i in range(0, len(best), size):
                if any(best[i:i + size]):
                    attempt(best[:i] + [0] * min(size, len(best) - i) + best[i + size:])
        i = 0
        while i < len(best):
            v = best[i]
            for nv in (0, v // 2, v - 1):
                if i < len(best) and 0 <= nv < best[i]:
                    attempt(best[:i] + [nv] + best[i + 1:])
            i += 1
            if time.time() > t_end:
                break
        improved = best != before
    return best, evals


def _worker(wid, nw, prop, subs, exes, seed, counts, t_end, conn, stop, known):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(5000)
    env = Env(exes)
    res = {}
    try:
        for sub in subs:
            res[sub.name] = {"evals": 0, "discards": 0, "keys": set(), "labels": Counter(), "samples": [], "timecap": 0, "known": Counter()}
        for sub in subs:
            R = res[sub.name]
            n = counts[sub.name]
            for i in range(wid, n, nw):
                if stop.is_set():
                    break
                if time.time() > t_end[sub.name]:
                    R["timecap"] = 1
                    break
                src = Src(seed=case_seed(seed, prop, sub.name, i))
                info, v = run_case(sub, env, src)
                if v is not None:
                    k = known(sub, v, src) if known else None
                    if k:
                        R["known"][k] += 1
                        continue
                    conn.send(("viol", sub.name, i, src.rec, v.kind, v.msg, v.detail))
                    stop.set()
                    break
                if info is None:
                    R["discards"] += 1
                    continue
                R["evals"] += 1
                for l in info.labels:
                    R["labels"][l] += 1
                if info.nontrivial:
                    k = digest(info.key)
                    if k not in R["keys"]:
                        R["keys"].add(k)
                        if len(R["samples"]) < 2 and info.sample is not None and (i // nw) % 5 == 3:
                            R["samples"].append(info.sample)
        conn.send(("done", res))
    except Exception:
        conn.send(("error", traceback.format_exc()))
    finally:
        env.close()
        conn.close()


def render(sub, env, choices):
    """Message of the failing case."""
    s = Src(choices=choices)
    _, v = run_case(sub, env, s)
    return v


def run_property(prop, subs, known=None, level="exploration", assumptions=None, on_known=None, argv=None):
    """Entry point of a check. Returns the exit status."""
    from . import build
    argv = sys.argv[1:] if argv is None else argv
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    only = None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    replay = None
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--only="):
            only = a[7:].split(",")
        elif a.startswith("--replay="):
            replay = a[9:]
        elif a.startswith("--seed="):
            seed = int(a[7:])
        elif a.startswith("--scale="):
            scale = float(a[8:])
    sys.setrecursionlimit(5000)
    if only:
        subs = [s for s in subs if s.name in only]
    t0 = time.time()
    exes = {v: build.build(v) for v in sorted({s.variant for s in subs})}
    if replay:
        r = json.load(open(replay))
        sub = [s for s in subs if s.name == r["sub"]][0]
        env = Env(exes)
        v = render(sub, env, r["choices"])
        env.close()
        if v is None:
            print("replay: property held")
            return 0
        print(v.msg + "\n" + v.detail)
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    t_build = time.time() - t0
    nw = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
    counts = {s.name: max(nw, int((s.quick if tier == "quick" else s.thorough) * scale)) for s in subs}
    # wall-clock safety: a slow machine gets fewer cases, never an alarm
    cap = float(os.environ.get("VERIF_CAP", 420 if tier == "quick" else 3 * 3600))
    tot = sum(counts.values())
    t_end = {}
    acc = time.time()
    for s in subs:
        acc += cap / len(subs)
        t_end[s.name] = acc
    stop = mp.Event()
    conns, procs = [], []
    t1 = time.time()
    for w in range(nw):
        a, b = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(w, nw, prop, subs, exes, seed, counts, t_end, b, stop, known))
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    viols, results, errors = [], [], []
    from multiprocessing.connection import wait
    live = list(conns)
    while live:
        for c in wait(live):
            try:
                m = c.recv()
            except EOFError:
                live.remove(c)
                continue
            if m[0] == "viol":
                viols.append(m[1:])
            elif m[0] == "done":
                results.append(m[1])
            else:
                errors.append(m[1])
    for p in procs:
        p.join()
    t_run = time.time() - t1
    evals = Counter()
    disc = 0
    keys = 0
    labels = {}
    samples = []
    knowns = Counter()
    timecap = 0
    for s in subs:
        ks = set()
        L = Counter()
        for r in results:
            R = r[s.name]
            evals[s.name] += R["evals"]
            disc += R["discards"]
            ks |= R["keys"]
            L.update(R["labels"])
            samples += [{"search": s.name, "case": x} for x in R["samples"]][:1]
            knowns.update(R["known"])
            timecap |= R["timecap"]
        keys += len(ks)
        labels[s.name] = dict(sorted(L.items()))
        labels[s.name]["_evaluations"] = evals[s.name]
        labels[s.name]["_distinct_nontrivial"] = len(ks)
    status = 0
    confirmed = 0
    replay_path = None
    if viols:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        env = Env(exes)
        viols.sort(key=lambda v: (v[0], v[1]))
        for name, i, choices, kind, msg, detail in viols:
            sub = [s for s in subs if s.name == name][0]
            try:
                hits = 0
                for _ in range(3):
                    if render(sub, env, choices) is not None:
                        hits += 1
                if hits < 3:
                    print("note: %s case %d failed once but on only %d of 3 replays" % (name, i, hits))
                    if hits == 0 and kind != "flaky":
                        continue
                best, ne = (choices, 0)
                if hits == 3:
                    best, ne = shrink(sub, env, choices, kind, budget_s=float(os.environ.get("VERIF_SHRINK", "60")))
                v = render(sub, env, best) or Violation(msg, kind, detail)
            except Exception as e:
                if _is_infra(e):
                    errors.append(traceback.format_exc())
                    continue
                raise
            h = hashlib.sha256(json.dumps([name, best]).encode()).hexdigest()[:12]
            replay_path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop, name, h))
            with open(replay_path, "w") as f:
                json.dump({"property": prop, "sub": name, "seed": seed, "case": i, "kind": v.kind, "choices": best,
                           "message": v.msg, "detail": v.detail}, f, indent=1)
            print("search %s, case %d, shrunk with %d evaluations to %d choices" % (name, i, ne, len(best)))
            print(v.msg)
            if v.detail:
                print(v.detail[:6000])
            confirmed = 1
            break
        env.close()
    samples = samples[:6]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {"evaluations": sum(evals.values()), "distinct_nontrivial": keys,
                       "rule": " | ".join("%s: %s" % (s.name, s.rule) for s in subs),
                       "samples": samples, "discarded": disc, "time_capped": bool(timecap),
                       "per_search": labels, "known_finding_cases": dict(knowns)},
          "assumptions": assumptions or [], "wall_s": round(time.time() - t0, 2), "violations": confirmed}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print("%s %s seed=%d: %d cases (%d distinct non-trivial, %d discarded) in %.1fs (+%.1fs build)%s" %
          (prop, tier, seed, sum(evals.values()), keys, disc, t_run, t_build, " TIME-CAPPED" if timecap else ""))
    if confirmed:
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    if errors:
        print("check error:\n" + errors[0])
        return 2
    return status

"""Runner: enumerates a check's cases over all cores, aggregates coverage, reports."""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from mc import env

EXIT_OK, EXIT_VIOLATION = 0, 1
CASE_LIMIT = int(os.environ.get("MC_CASE_LIMIT", "240"))


class Violation(Exception):
    def __init__(self, msg, **detail):
        Exception.__init__(self, msg)
        self.msg = msg
        self.detail = detail


class _Hang(BaseException):
    pass


def check(cond, msg, **detail):
    if not cond:
        raise Violation(msg, **detail)


class Stats(object):
    """Everything is counted where it happens."""

    def __init__(self):
        self.n = {}
        self.sets = {}
        self.samples = []
        self.known_hits = {}

    def add(self, key, k=1):
        self.n[key] = self.n.get(key, 0) + k

    def transition(self, k=1):
        self.add("transitions", k)

    def trace(self, k=1):
        self.add("traces", k)

    def evaluation(self, k=1):
        self.add("evaluations", k)

    def seen(self, name, obj):
        """Add obj to the named set of distinct things; True if it is new here."""
        h = hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()
        s = self.sets.setdefault(name, set())
        if h in s:
            return False
        s.add(h)
        return True

    def state(self, obj):
        return self.seen("states", obj)

    def distinct(self, obj):
        return self.seen("distinct", obj)

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def known(self, fid, msg):
        k = self.known_hits.setdefault(fid, [0, msg])
        k[0] += 1

    def merge(self, o):
        for k, v in o.n.items():
            self.add(k, v)
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.samples.extend(o.samples)
        for k, (c, m) in o.known_hits.items():
            e = self.known_hits.setdefault(k, [0, m])
            e[0] += c


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float) and o != o:
        return "nan"
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def run_one(mod, case, st):
    """Returns None or (message, detail)."""
    def onalarm(sig, frm):
        raise _Hang()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_LIMIT)
    try:
        mod.run_case(case, st)
        return None
    except Violation as v:
        return v.msg, jsonable(v.detail)
    except _Hang:
        return "no answer within %d s (does not terminate?)" % CASE_LIMIT, \
            {"traceback": ""}
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # an exception escaping from valid use is a failure
        return "exception %s: %s" % (type(e).__name__, e), \
            {"traceback": traceback.format_exc()}
    finally:
        signal.alarm(0)


def _worker(mod, cases, counter, stop, q, wid):
    d = os.path.join(env.SCRATCH, "w%d" % wid)
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    if not os.environ.get("MC_DEBUG"):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 2)
        os.dup2(dn, 1)
    st = Stats()
    bad = None
    done = 0
    while not stop.value:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(cases):
            break
        q.put(("start", wid, i))
        r = run_one(mod, cases[i], st)
        done += 1
        if r is not None:
            bad = (i, r[0], r[1])
            stop.value = 1
            break
    q.put(("done", wid, (st, bad, done)))
    q.close()
    q.join_thread()
    os._exit(0)


def load_known():
    """KNOWN_FINDINGS.jsonl: {"property","id","what"} lines (see DESIGN.md)."""
    out = {}
    p = os.path.join(env.VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                out.setdefault(d["property"], {})[d["id"]] = d["what"]
    return out


def main(mod, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    jobs = int(os.environ.get("MC_JOBS", "0")) or min(8, os.cpu_count() or 1)
    args = list(argv)
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = args.pop(0)
        else:
            raise SystemExit("unknown argument " + a)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known = load_known().get(mod.ID, {})
    mod.KNOWN = known

    if replay:
        case = json.load(open(replay))["case"]
        st = Stats()
        r = run_one(mod, case, st)
        print("replay of %s: %s" % (replay, "no violation" if r is None else r[0]))
        if r is not None:
            print(json.dumps(r[1], indent=1)[:20000])
            print("VIOLATION property=%s replay=%s" % (mod.ID, replay))
        return EXIT_OK if r is None else EXIT_VIOLATION

    cases = list(mod.cases(tier))
    ctx = mp.get_context("fork")
    total = Stats()
    bad = []
    ndone = 0
    if cases:
        counter = ctx.Value("i", 0)
        stop = ctx.Value("i", 0)
        q = ctx.Queue()
        sys.stdout.flush()
        procs = [ctx.Process(target=_worker, args=(mod, cases, counter, stop, q, w))
                 for w in range(min(jobs, len(cases)))]
        for p in procs:
            p.start()
        cur = {}
        live = set(range(len(procs)))
        import queue as _q
        while live:
            try:
                kind, wid, x = q.get(timeout=1.0)
            except _q.Empty:
                for w in list(live):
                    if not procs[w].is_alive():
                        # give a final message a chance to arrive
                        try:
                            while True:
                                kind, wid, x = q.get(timeout=0.5)
                                if kind == "start":
                                    cur[wid] = x
                                else:
                                    live.discard(wid)
                                    st, b, d = x
                                    total.merge(st)
                                    ndone += d
                                    if b:
                                        bad.append(b)
                        except _q.Empty:
                            pass
                        if w in live:
                            live.discard(w)
                            stop.value = 1
                            if procs[w].exitcode == -signal.SIGKILL:
                                print("ERROR worker killed (memory?)")
                                return 3
                            bad.append((cur.get(w, -1),
                                        "interpreter died with exit code %s"
                                        % procs[w].exitcode, {}))
                continue
            if kind == "start":
                cur[wid] = x
            else:
                live.discard(wid)
                st, b, d = x
                total.merge(st)
                ndone += d
                if b:
                    bad.append(b)
        for p in procs:
            p.join()

    # extra whole-run obligations (e.g. vacuity guards); run in the parent
    if not bad and hasattr(mod, "finish"):
        try:
            mod.finish(total, tier)
        except Violation as v:
            bad.append((-1, v.msg, jsonable(v.detail)))

    n = total.n
    if mod.LEVEL == "model_checking":
        cov = {"states": len(total.sets.get("states", ())),
               "transitions": n.get("transitions", 0),
               "traces_validated_against_impl": n.get("traces", 0)}
    else:
        cov = {"evaluations": n.get("evaluations", 0),
               "distinct_nontrivial": len(total.sets.get("distinct", ())),
               "rule": mod.RULE}
    cov["samples"] = jsonable(total.samples[:8]) or [jsonable(cases[0])]
    cov["cases"] = ndone
    cov["cases_total"] = len(cases)
    cov["exhaustive"] = (ndone == len(cases)) and not bad
    cov["bounds"] = mod.BOUNDS[tier]
    for k, v in sorted(n.items()):
        if k not in ("transitions", "traces", "evaluations"):
            cov["count_" + k] = v
    for k, v in sorted(total.sets.items()):
        if k not in ("states", "distinct"):
            cov["distinct_" + k] = len(v)
    # a known finding must still be present in the file to be suppressed
    out = []
    for fid, (c, msg) in sorted(total.known_hits.items()):
        if fid in known:
            out.append("KNOWN-FINDING: property=%s %s: %s (%d cases)"
                       % (mod.ID, fid, known[fid], c))
            cov["known_finding_cases"] = cov.get("known_finding_cases", 0) + c
        else:
            bad.append((-1, "unlisted finding %s: %s" % (fid, msg), {}))
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL,
          "coverage": cov, "assumptions": mod.ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    ep = os.path.join(env.VERIF, "evidence", mod.ID + ".json")
    if os.environ.get("MC_NO_EVIDENCE"):
        ep = os.path.join(env.SCRATCH, "ev.json")
    with open(ep, "w") as f:
        json.dump(ev, f, indent=1)
    for line in out:
        print(line)
    if bad:
        bad.sort(key=lambda b: b[0])
        i, msg, detail = bad[0]
        rd = os.path.join(env.VERIF, "replays")
        if os.environ.get("MC_NO_EVIDENCE"):
            rd = os.environ.get("MC_REPLAY_DIR", "/tmp/mc-replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s.json" % (mod.ID, tier))
        with open(rp, "w") as f:
            json.dump({"property": mod.ID, "case": cases[i] if i >= 0 else None,
                       "message": msg, "detail": detail}, f, indent=1)
        print("%s: %s" % (mod.ID, msg))
        print("VIOLATION property=%s replay=%s" % (mod.ID, rp))
        return EXIT_VIOLATION
    print("%s %s: held on everything explored: %s (%.1f s)" % (
        mod.ID, tier, ", ".join("%s=%s" % (k, v) for k, v in cov.items()
                                if isinstance(v, (int, bool))), time.time() - t0))
    return EXIT_OK

"""Shared machinery of the runtime monitors.

A check module provides
    ID, RULE, LEVEL_NOTE-ish texts
    gen(src, tier)  -> case        JSON-able description of one execution
    run(case, obs)  -> None | str  drives the real plasTeX code, observes it and returns
                                   a violation message (None: property held on this execution)
    QUICK / THOROUGH               (number of random cases, wall cap in seconds)
and optionally
    corpus(tier)    -> iterable of cases run first (directed and enumerated cases)
    KNOWN           -> list of {'what':..., 'case':...}: known findings (see known_findings.json)
    REQUIRED        -> names of observation counters that must be > 0, else inconclusive

All randomness comes from VERIF_SEED.  A failing case is confirmed alone, in a
fresh process forked from a parent that never ran a case, before it is reported.
Verdicts: violated (exit 1), held on what was observed (exit 0), inconclusive (exit 2).
"""
import collections
import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
CASE_WALL = 20.0            # first-stage watchdog for one case (not a verdict)
STEP_BUDGET = 40_000_000    # second stage: loop iterations + calls (logical steps)


class CaseTimeout(BaseException):
    pass


# ---------------------------------------------------------------- choices
class Src(object):
    """Source of choices: random, or replayed from a list (for shrinking)."""

    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.log = []

    def draw(self, n):
        """An int in [0, n); 0 is the simplest."""
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.log)
            v = self.replay[i] if i < len(self.replay) else 0
            v %= n
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v

    def int(self, a, b):
        return a + self.draw(b - a + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; False is the simplest."""
        return self.draw(den) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        k = self.draw(tot)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))


class Obs(object):
    """What the monitors observed during a run."""

    def __init__(self):
        self.count = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.nontrivial = True

    def hit(self, name, n=1):
        self.count[name] += n

    def seen(self, name, value):
        s = self.sets[name]
        if len(s) < 20000:
            s.add(value)


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def case_src(seed, check, idx):
    return Src(random.Random('%s/%s/%s' % (seed, check, idx)))


# ---------------------------------------------------------------- workers
def quiet_plastex():
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import logging
    import plasTeX
    assert os.path.realpath(plasTeX.__file__).startswith(os.path.realpath(REPO) + os.sep), plasTeX.__file__
    from plasTeX import Logging
    import plasTeX.TeX  # noqa
    import plasTeX.Context  # noqa
    import plasTeX.Base  # noqa
    import plasTeX.Config  # noqa
    Logging.disableLogging()
    logging.disable(logging.CRITICAL)


def _alarm(sig, frame):
    raise CaseTimeout()


def run_one(mod, case, obs):
    """Run one case; returns (kind, message), kind in ok|bad|timeout."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, 'CASE_WALL', CASE_WALL), 1.0)
    try:
        msg = mod.run(case, obs)
        return ('ok', None) if msg is None else ('bad', msg)
    except CaseTimeout:
        return ('timeout', 'wall watchdog')
    except (RecursionError, MemoryError) as e:
        return ('bad', 'exception %s' % type(e).__name__)
    except Exception:
        return ('bad', 'exception:\n' + traceback.format_exc(limit=-12))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class StepBudget(object):
    """Count loop iterations and calls with sys.monitoring; die past the budget."""

    def __init__(self, budget, on_exceed):
        self.left = budget
        self.on_exceed = on_exceed

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(3, 'steps')

        def tick(*a):
            self.left -= 1
            if self.left < 0:
                self.on_exceed()
        m.register_callback(3, m.events.JUMP, tick)
        m.register_callback(3, m.events.PY_START, tick)
        m.register_callback(3, m.events.PY_RESUME, tick)
        m.set_events(3, m.events.JUMP | m.events.PY_START | m.events.PY_RESUME)
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(3, 0)
        sys.monitoring.free_tool_id(3)


def in_child(fn, timeout):
    """Run fn() in a forked child; returns its JSON-able result or None on death/timeout."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            limits()
            res = fn(w)
            os.write(w, json.dumps(res).encode() + b'\n')
        except BaseException:
            os.write(w, json.dumps(['harness', traceback.format_exc()]).encode() + b'\n')
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    os.waitpid(pid, 0)
    if buf.endswith(b'\n'):
        return json.loads(buf.decode().strip().split('\n')[-1])
    return None


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if not os.environ.get('VERIF_VERBOSE'):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    sys.setrecursionlimit(5000)


def confirm(mod, case):
    """Re-run a case alone in a fresh process. -> (kind, msg)"""
    def plain(w):
        return list(run_one(mod, case, Obs()))
    res = in_child(plain, 3 * getattr(mod, 'CASE_WALL', CASE_WALL) + 10)
    if res is not None and res[0] in ('ok', 'bad', 'harness'):
        return tuple(res)

    # timed out: decide on logical steps
    def stepped(w):
        def boom():
            os.write(w, json.dumps(['bad', 'no result within %d logical steps (loop iterations+calls)'
                                    % STEP_BUDGET]).encode() + b'\n')
            os._exit(0)
        with StepBudget(STEP_BUDGET, boom):
            try:
                msg = mod.run(case, Obs())
                return ['ok', None] if msg is None else ['bad', msg]
            except (RecursionError, MemoryError) as e:
                return ['bad', 'exception %s' % type(e).__name__]
            except Exception:
                return ['bad', 'exception:\n' + traceback.format_exc(limit=-12)]
    res = in_child(stepped, 200)
    if res is None:
        return ('timeout', 'no result and step budget not reached within 200 s')
    return tuple(res)


def worker(mod, tier, seed, wid, nproc, start, ncases, deadline, out, corpus):
    limits()
    obs = Obs()
    hashes = set()
    nt = 0
    samples = []
    ev = 0

    def send(rec):
        os.write(out, json.dumps(rec).encode() + b'\n')

    def do(idx, case):
        nonlocal ev, nt
        h = case_hash(case)
        obs.nontrivial = True
        if os.environ.get('VERIF_TRACE'):
            with open('/tmp/verif_trace_%d' % os.getpid(), 'w') as f:
                json.dump(case, f)
        kind, msg = run_one(mod, case, obs)
        ev += 1
        if obs.nontrivial and h not in hashes:
            hashes.add(h)
            nt += 1
            if len(samples) < 2:
                samples.append(case)
        if kind != 'ok':
            send(['fail', idx, case, kind, msg])
            return False
        return True

    nfail = 0
    for i, case in enumerate(corpus):
        if i % nproc != wid or ('c', i) < start:
            continue
        if time.time() > deadline:
            break
        if not do(['c', i], case):
            send(['stats', ev, sorted(hashes), dict(obs.count), {k: len(v) for k, v in obs.sets.items()},
                  {k: sorted(map(str, v))[:400] for k, v in obs.sets.items()}, samples])
            send(['restart', 'c', i + 1])
            return
    s0 = start[1] if start[0] == 'r' else 0
    for i in range(s0, ncases):
        if i % nproc != wid:
            continue
        if time.time() > deadline:
            send(['capped', i])
            break
        src = case_src(seed, mod.ID, i)
        try:
            case = mod.gen(src, tier)
        except Exception:
            send(['harness', traceback.format_exc()])
            return
        if case is None:
            continue
        if not do(['r', i], case):
            send(['stats', ev, sorted(hashes), dict(obs.count), {k: len(v) for k, v in obs.sets.items()},
                  {k: sorted(map(str, v))[:400] for k, v in obs.sets.items()}, samples])
            send(['restart', 'r', i + 1])
            return
    send(['stats', ev, sorted(hashes), dict(obs.count), {k: len(v) for k, v in obs.sets.items()},
          {k: sorted(map(str, v))[:400] for k, v in obs.sets.items()}, samples])
    send(['done'])


def shrink(mod, choices, tier, budget=25.0):
    """Greedy reduction of the choice sequence; every step confirmed in a fresh process."""
    end = time.time() + budget
    best = list(choices)

    def fails(ch):
        try:
            case = mod.gen(Src(replay=ch), tier)
        except Exception:
            return False
        if case is None:
            return False
        res = in_child(lambda w: list(run_one(mod, case, Obs())), 30)
        return bool(res) and res[0] == 'bad'

    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                cand = best[:i] + best[i + size:]
                if fails(cand):
                    best = cand
                    improved = True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if time.time() > end:
                break
            if best[i]:
                for v in (0, best[i] // 2, best[i] - 1):
                    if v < best[i]:
                        cand = best[:i] + [v] + best[i + 1:]
                        if fails(cand):
                            best = cand
                            improved = True
                            break
    return best


# ---------------------------------------------------------------- main
def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == pid]


def main(mod):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    quiet_plastex()
    if hasattr(mod, 'setup'):
        mod.setup(tier)

    if '--replay' in sys.argv:
        with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
            rec = json.load(f)
        os.environ['VERIF_VERBOSE'] = '1'
        kind, msg = confirm(mod, rec['case'])
        print(kind, msg)
        if hasattr(mod, 'show'):
            print(mod.show(rec['case']))
        sys.exit(1 if kind == 'bad' else 0)

    ncases, wall = mod.THOROUGH if tier == 'thorough' else mod.QUICK
    if os.environ.get('VERIF_N'):
        ncases = int(os.environ['VERIF_N'])
    if os.environ.get('VERIF_WALL'):
        wall = float(os.environ['VERIF_WALL'])
    deadline = t0 + wall
    stop_after = int(os.environ.get('VERIF_STOP', '1'))
    violations = []
    notes = []
    known_out = []

    # known findings: the listed inputs, each run alone
    for e in load_known(mod.ID):
        kind, msg = confirm(mod, e['case'])
        if kind == 'bad':
            known_out.append(e['what'])
        else:
            notes.append('known finding no longer fails: ' + e['what'])

    corpus = list(mod.corpus(tier)) if hasattr(mod, 'corpus') else []
    total = collections.Counter()
    setcount = collections.defaultdict(set)
    evaluations = 0
    hashes = set()
    samples = []
    unconfirmed = 0
    inconclusive = []
    harness_err = []
    capped = False
    procs = {}

    def spawn(wid, start):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for (_, rr, _, _) in procs.values():
                try:
                    os.close(rr)
                except OSError:
                    pass
            try:
                worker(mod, tier, seed, wid, NPROC, start, ncases, deadline, w, corpus)
            except BaseException:
                try:
                    os.write(w, json.dumps(['harness', traceback.format_exc()]).encode() + b'\n')
                except BaseException:
                    pass
            os._exit(0)
        os.close(w)
        procs[wid] = [pid, r, b'', start]

    for wid in range(NPROC):
        spawn(wid, ('c', 0))

    hard = deadline + 3 * getattr(mod, 'CASE_WALL', CASE_WALL) + 30
    restarts = 0
    while procs:
        if time.time() > hard:
            for pid, r, _, _ in procs.values():
                os.kill(pid, signal.SIGKILL)
            inconclusive.append('workers stuck past the hard wall limit')
            break
        rd, _, _ = select.select([p[1] for p in procs.values()], [], [], 1.0)
        for wid in list(procs):
            p = procs[wid]
            if p[1] not in rd:
                continue
            d = os.read(p[1], 1 << 20)
            if d:
                p[2] += d
                continue
            os.close(p[1])
            os.waitpid(p[0], 0)
            del procs[wid]
            recs = [json.loads(x) for x in p[2].decode().split('\n') if x.strip()]
            again = None
            finished = False
            for rec in recs:
                if rec[0] == 'stats':
                    evaluations += rec[1]
                    hashes.update(rec[2])
                    total.update(rec[3])
                    for k, v in rec[5].items():
                        setcount[k].update(v)
                    samples.extend(rec[6][:1])
                elif rec[0] == 'harness':
                    harness_err.append(rec[1])
                    finished = True
                elif rec[0] == 'capped':
                    capped = True
                elif rec[0] == 'done':
                    finished = True
                elif rec[0] == 'restart':
                    again = (rec[1], rec[2])
                    finished = True
                elif rec[0] == 'fail':
                    _, idx, case, kind, msg = rec
                    kind2, msg2 = confirm(mod, case)
                    if kind2 == 'bad':
                        violations.append((idx, case, msg2))
                    elif kind2 == 'timeout':
                        inconclusive.append('case %s: %s' % (idx, msg2))
                    elif kind2 == 'harness':
                        harness_err.append(msg2)
                    else:
                        unconfirmed += 1
                        notes.append('failed only after other cases in the same process (case %s): %s'
                                     % (idx, str(msg)[:300]))
            if not finished:
                inconclusive.append('worker %d died' % wid)
            if again and len(violations) < stop_after and restarts < 200 and time.time() < deadline:
                restarts += 1
                spawn(wid, again)
        if len(violations) >= stop_after or harness_err:
            for pid, r, _, _ in procs.values():
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            procs.clear()
            break

    extra = None
    if hasattr(mod, 'finish') and not violations and not harness_err:
        # a deciding step that needs the whole run (e.g. cross-process comparison)
        extra = mod.finish(tier, seed, total)
        if extra and extra.get('violation'):
            violations.append((['f', 0], extra['case'], extra['violation']))

    # report
    rc = 0
    for what in known_out:
        print('KNOWN-FINDING: property=%s %s' % (mod.ID, what))
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for idx, case, msg in violations:
        if idx[0] == 'r' and not os.environ.get('VERIF_NOSHRINK'):
            src = case_src(seed, mod.ID, idx[1])
            mod.gen(src, tier)
            small = shrink(mod, src.log, tier, 15.0)
            c2 = mod.gen(Src(replay=small), tier)
            k2, m2 = confirm(mod, c2)
            if k2 == 'bad':
                case, msg = c2, m2
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (mod.ID, case_hash(case)))
        with open(path, 'w') as f:
            json.dump({'property': mod.ID, 'index': idx, 'seed': seed, 'tier': tier,
                       'case': case, 'message': msg}, f, indent=1)
        print('--- violating execution (%s) ---' % idx)
        print(mod.show(case) if hasattr(mod, 'show') else json.dumps(case)[:2000])
        print('--- observed ---')
        print(msg)
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        rc = 1
    missing = [r for r in getattr(mod, 'REQUIRED', []) if not total.get(r)]
    if not rc:
        if harness_err:
            print('HARNESS ERROR:\n' + harness_err[0])
            rc = 2
        elif evaluations == 0 or missing:
            print('INCONCLUSIVE: evaluations=%d, never observed: %s' % (evaluations, missing))
            rc = 2
        elif inconclusive:
            print('INCONCLUSIVE: ' + '; '.join(inconclusive[:3]))
            rc = 2
    cov = {
        'evaluations': evaluations,
        'distinct_nontrivial': len(hashes),
        'rule': mod.RULE,
        'samples': samples[:3] or [c for _, c, _ in violations][:1],
        'corpus_cases': len(corpus),
        'observed': dict(sorted(total.items())),
        'distinct_observed': {k: len(v) for k, v in sorted(setcount.items())},
        'unconfirmed_failures': unconfirmed,
        'known_findings_still_failing': known_out,
        'wall_capped': capped,
        'inconclusive': inconclusive,
        'notes': notes[:20],
    }
    if extra:
        cov['finish'] = {k: v for k, v in extra.items() if k != 'case'}
    ev = {
        'property': mod.ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': cov,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s seed=%d evaluations=%d distinct=%d unconfirmed=%d wall=%.1fs rc=%d'
          % (mod.ID, tier, seed, evaluations, len(hashes), unconfirmed, time.time() - t0, rc))
    sys.stdout.flush()
    os._exit(rc)

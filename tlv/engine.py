"""
A small property-based testing engine.

Every random decision of a generated case goes through Source.draw(); a case is
therefore a finite list of bounded integers ("choices").  Running a property on
a Source that replays such a list is a pure function of the list and the code
under test, which is what gives shrinking (operate on the list) and replay
files (store the list).  0 is by convention the simplest choice everywhere.

Two exploration modes share the same choice representation:
  * random:    fresh choices from random.Random(seed, property, case number)
  * mutation:  coverage-guided; choice lists that reached new arcs of the code
               under test (sys.monitoring) are kept and mutated (thorough tier
               and a slice of the quick one)
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The oracle rejected a behaviour of the code under test."""


class Discard(Exception):
    """The generated case is outside the domain of the property."""


class OutOfChoices(Exception):
    pass


MAX_CHOICES = 6000


class Source:
    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix or []
        self.rec = []

    def draw(self, n):
        """Integer in [0, n)"""
        i = len(self.rec)
        if i >= MAX_CHOICES:
            raise Discard('too many choices')
        if n <= 1:
            v = 0
        elif i < len(self.prefix):
            v = self.prefix[i]
            if v >= n or v < 0:
                v = v % n
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, percent=50):
        """True with that probability; False is the simple choice"""
        return self.draw(100) >= 100 - percent

    def rare(self, n):
        """True once every n times"""
        return self.draw(n) == n - 1

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, item)]; the first one is the simplest"""
        tot = sum(w for w, _ in pairs)
        r = self.draw(tot)
        for w, item in pairs:
            if r < w:
                return item
            r -= w
        raise AssertionError

    def size(self, lo, hi):
        """A size, biased to small ones"""
        if hi <= lo:
            return lo
        return lo + min(self.draw(hi - lo + 1), self.draw(hi - lo + 1) if self.draw(3) else hi)

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))


class Case:
    """What a property reports about the case it has just run."""

    def __init__(self):
        self.labels = []
        self.evals = 0
        self.nontrivial = []   # list of keys, one for each nontrivial evaluation
        self.text = []         # human readable description

    def label(self, *names):
        self.labels.extend(names)

    def evaluated(self, key=None):
        """One evaluation of the oracle; key is not None if it is nontrivial"""
        self.evals += 1
        if key is not None:
            self.nontrivial.append(key)

    def say(self, *lines):
        self.text.extend(lines)


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout()


CASE_TIMEOUT = 60


def run_case(prop, src):
    """
    returns (status, case, message); status in ok, discard, violation, timeout
    Any other exception is an error of the harness and propagates.
    """
    case = Case()
    try:
        prop.check(src, case)
        return 'ok', case, ''
    except Discard as e:
        return 'discard', case, str(e)
    except Violation as e:
        return 'violation', case, str(e)


class Stats:
    def __init__(self):
        self.cases = 0
        self.discards = 0
        self.evals = 0
        self.timeouts = 0
        self.labels = {}
        self.keys = set()
        self.samples = []
        self.failure = None
        self.error = None
        self.corpus = 0
        self.arcs = 0
        self.stopped_early = False

    def add(self, status, case):
        self.cases += 1
        if status == 'discard':
            self.discards += 1
            return
        self.evals += case.evals
        for l in set(case.labels):
            self.labels[l] = self.labels.get(l, 0) + 1
        for k in case.nontrivial:
            self.keys.add(hashlib.blake2b(repr(k).encode('utf8', 'backslashreplace'), digest_size=8).digest())
        if case.nontrivial and len(self.samples) < 3 and case.text:
            t = '\n'.join(case.text)
            if len(t) < 3000:
                self.samples.append(t)

    def merge(self, o):
        self.cases += o.cases
        self.discards += o.discards
        self.evals += o.evals
        self.timeouts += o.timeouts
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.keys |= o.keys
        self.samples.extend(o.samples)
        self.corpus += o.corpus
        self.arcs = max(self.arcs, o.arcs)
        self.stopped_early |= o.stopped_early
        if o.failure and not self.failure:
            self.failure = o.failure
        if o.error and not self.error:
            self.error = o.error


class Coverage:
    """
    Line-arc coverage of the code under test, by sys.monitoring.
    """
    TOOL = 3

    def __init__(self, root):
        self.root = root
        self.arcs = set()
        self.cur = set()
        self.last = 0
        self.codes = {}
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'tlv')
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.register_callback(self.TOOL, m.events.PY_START, self.start)
        m.set_events(self.TOOL, m.events.PY_START)

    def start(self, code, off):
        if code.co_filename.startswith(self.root):
            sys.monitoring.set_local_events(self.TOOL, code, sys.monitoring.events.LINE)
        return sys.monitoring.DISABLE

    def line(self, code, line):
        self.cur.add((self.last, line, code.co_filename[-12:]))
        self.last = line

    def begin(self):
        self.cur = set()
        self.last = 0

    def end(self):
        new = self.cur - self.arcs
        self.arcs |= new
        return len(new)

    def close(self):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)


def mutate(rng, seq, other):
    seq = list(seq)
    for _ in range(rng.choice((1, 1, 2, 3, 5))):
        op = rng.randrange(7)
        n = len(seq)
        if n == 0:
            seq = [rng.randrange(100) for _ in range(8)]
            continue
        i = rng.randrange(n)
        if op == 0:
            seq[i] = rng.randrange(256)
        elif op == 1:
            seq[i] = max(0, seq[i] + rng.choice((-1, 1)))
        elif op == 2:
            del seq[i:i + rng.randrange(1, 9)]
        elif op == 3:
            seq[i:i] = [rng.randrange(100) for _ in range(rng.randrange(1, 6))]
        elif op == 4:
            j = rng.randrange(n)
            k = rng.randrange(1, 12)
            seq[i:i + k] = seq[j:j + k]
        elif op == 5:
            seq[i:] = []      # the rest is regenerated at random
        elif op == 6 and other:
            j = rng.randrange(len(other))
            seq[i:] = other[j:]
    return seq


def worker(prop, seed, wid, nworkers, ncases, deadline, guided, stop, root):
    """Runs its share of the cases, returns Stats"""
    st = Stats()
    signal.signal(signal.SIGALRM, _alarm)
    cov = Coverage(root) if guided else None
    corpus = []
    try:
        for i in range(wid, ncases, nworkers):
            if time.monotonic() > deadline:
                st.stopped_early = True
                break
            if stop is not None and (st.cases & 15) == 0 and stop.is_set():
                break
            rng = random.Random('%d/%s/%d' % (seed, prop.id, i))
            prefix = None
            if guided and corpus and rng.random() < 0.75:
                # favour recent discoveries
                a = corpus[-1 - int(len(corpus) * rng.random() ** 2)] if rng.random() < .5 else rng.choice(corpus)
                prefix = mutate(rng, a, rng.choice(corpus))
            src = Source(rng, prefix)
            if cov:
                cov.begin()
            signal.alarm(CASE_TIMEOUT)
            try:
                status, case, msg = run_case(prop, src)
            except Timeout:
                st.timeouts += 1
                st.cases += 1
                continue
            finally:
                signal.alarm(0)
            if cov and status != 'discard' and cov.end():
                corpus.append(src.rec)
            st.add(status, case)
            if status == 'violation':
                st.failure = (src.rec, msg)
                if stop is not None:
                    stop.set()
                break
    except Exception:
        st.error = traceback.format_exc()
        if stop is not None:
            stop.set()
    if cov:
        st.corpus = len(corpus)
        st.arcs = len(cov.arcs)
        cov.close()
    return st


def _child(conn, *args):
    st = worker(*args)
    conn.send(st)
    conn.close()
    os._exit(0)


def explore(prop, seed, ncases, budget_s, procs, guided, root):
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    deadline = time.monotonic() + budget_s
    # guided: how many of the processes do the coverage guided search
    if procs <= 1:
        return worker(prop, seed, 0, 1, ncases, deadline, bool(guided), None, root)
    stop = ctx.Event()
    ps = []
    for w in range(procs):
        r, c = ctx.Pipe(False)
        p = ctx.Process(target=_child, args=(c, prop, seed, w, procs, ncases, deadline, w < guided, stop, root))
        p.start()
        c.close()
        ps.append((p, r))
    tot = Stats()
    for p, r in ps:
        try:
            if r.poll(budget_s + 120):
                tot.merge(r.recv())
            else:
                tot.timeouts += 1
                p.kill()
        except EOFError:
            tot.error = tot.error or 'worker died (exit code %s)' % p.exitcode
        p.join(5)
    return tot


def shrink(prop, rec, budget_s=45, max_runs=4000):
    """Greedy minimisation of the choice list; returns (rec, msg)"""
    t0 = time.monotonic()
    runs = 0
    seen = set()

    def fails(seq):
        nonlocal runs
        k = tuple(seq)
        if k in seen or runs >= max_runs or time.monotonic() - t0 > budget_s:
            return None
        seen.add(k)
        runs += 1
        src = Source(None, list(seq))
        try:
            signal.alarm(CASE_TIMEOUT)
            status, case, msg = run_case(prop, src)
        except (Timeout, Exception):
            return None
        finally:
            signal.alarm(0)
        if status == 'violation':
            return src.rec
        return None

    signal.signal(signal.SIGALRM, _alarm)
    best = list(rec)
    src = Source(None, best)
    status, case, msg = run_case(prop, src)
    if status != 'violation':
        return best, None
    best = src.rec

    def better(a, b):
        return (len(a), a) < (len(b), b)

    improved = True
    while improved and time.monotonic() - t0 < budget_s and runs < max_runs:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + size:]
                r = fails(cand)
                if r is not None and better(r, best):
                    best = r
                    improved = True
                else:
                    i += max(1, size)
            size //= 2
        size = 8
        while size >= 1:
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    r = fails(cand)
                    if r is not None and better(r, best):
                        best = r
                        improved = True
                i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            lo = 0
            hi = best[i]
            while lo < hi and i < len(best):
                mid = (lo + hi) // 2
                cand = best[:i] + [mid] + best[i + 1:]
                r = fails(cand)
                if r is not None and better(r, best):
                    best = r
                    improved = True
                    hi = mid
                else:
                    lo = mid + 1
    while best and best[-1] == 0:
        best.pop()
    status, case, msg = run_case(prop, Source(None, list(best)))
    return best, (msg, case) if status == 'violation' else None

"""A small property-based testing engine (choice-sequence based, in the style of
Hypothesis' internals), written because Hypothesis does not run on the PyPy 3.9
interpreter that the code under test is built and tested with.

Every random decision of a case is one bounded integer drawn from a `Data`
object.  The recorded integer sequence *is* the case: replaying it rebuilds the
same case, and shrinking works on it (delete chunks, zero chunks, lower single
values), so no generator needs a shrinker of its own.
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The property does not hold on the current case."""


class Discard(Exception):
    """The case does not satisfy the property's precondition."""


class Exhausted(Discard):
    """A replayed (shrunk) choice sequence ran out or got too long."""


class CaseTimeout(BaseException):
    pass


MAX_CHOICES = 20000


class Data(object):
    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.bounds = []
        self.labels = {}
        self.keys = []
        self.case = {}
        self.evals = 0

    # --- the single source of randomness -----------------------------------
    def below(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        i = len(self.choices)
        if i >= MAX_CHOICES:
            raise Exhausted()
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        self.bounds.append(n)
        return v

    # --- derived draws (all shrink towards their first/lowest alternative) --
    def integer(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def signed(self, mag):
        """integer in [-mag, mag], shrinking to 0"""
        v = self.below(2 * mag + 1)
        return (v + 1) // 2 if v % 2 else -(v // 2)

    def boolean(self, p=0.5):
        """True with probability p; shrinks to False"""
        return self.below(1000) >= 1000 - int(p * 1000)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs of (weight, value); shrinks to the first"""
        total = sum(w for w, _ in pairs)
        v = self.below(total)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def size(self, lo, hi):
        """a length, biased to small values"""
        if lo >= hi:
            return lo
        k = self.below(4)
        top = [min(hi, lo + 3), min(hi, lo + 6), hi, hi][k]
        return self.integer(lo, top)

    def many(self, lo, hi, fn):
        """a list of lo..hi items: one continuation choice per item so that
        deleting a chunk of choices deletes items"""
        out = []
        n = self.size(lo, hi)
        for _ in range(n):
            out.append(fn())
        return out

    def mm(self, mag=100, places=3):
        """decimal number with few digits, as float: k / 10**places"""
        sc = 10 ** places
        kind = self.below(4)
        if kind == 0:
            return float(self.signed(mag))
        return self.signed(mag * sc) / float(sc)

    def pos(self, lo=0.01, hi=10.0, places=3):
        sc = 10 ** places
        return self.integer(int(round(lo * sc)), int(round(hi * sc))) / float(sc)

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    # --- bookkeeping ---------------------------------------------------------
    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, key):
        """declare the current case (or sub-case) non-trivial, identified by key"""
        self.keys.append(key if isinstance(key, str) else repr(key))

    def show(self, **kw):
        """what the case is, for samples and replay files"""
        self.case.update(kw)


def run_once(prop, data, limit=120):
    """-> None (held), 'discard', or (kind, message, traceback)"""
    def onalarm(sig, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        prop(data)
        return None
    except Discard:
        return 'discard'
    except Violation as e:
        return ('violation', str(e), tb_tail())
    except CaseTimeout:
        return ('timeout', 'case did not finish in %d s' % limit, '')
    except KeyboardInterrupt:
        raise
    except (Exception, SystemExit) as e:  # the code under test raised on a valid input
        return ('exception', '%s: %s' % (type(e).__name__, e), tb_tail())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def tb_tail():
    lines = traceback.format_exc().splitlines()
    return '\n'.join(lines[-14:])


def fail_site(res):
    """coarse identity of a failure, used to keep shrinking on the same bug"""
    return res[0]


def shrink(prop, choices, res, budget=8000, wall=60.0):
    deadline = time.time() + wall
    kind = fail_site(res)
    best, best_res = list(choices), res
    count = [0]
    seen = set()

    def attempt(cand):
        nonlocal best, best_res
        if count[0] >= budget or time.time() > deadline:
            return False
        t = tuple(cand)
        if t in seen:
            return False
        seen.add(t)
        count[0] += 1
        d = Data(prefix=list(cand))
        r = run_once(prop, d, 20)
        if isinstance(r, tuple) and fail_site(r) == kind:
            c = list(d.choices)
            if (len(c), c) < (len(best), best):
                best, best_res = c, r
                return True
        return False

    improved = True
    while improved and count[0] < budget and time.time() < deadline:
        improved = False
        size = len(best) // 2
        while size >= 1:
            i = 0
            while i + size <= len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += max(1, size // 2) if size > 4 else 1
                if time.time() > deadline:
                    break
            size //= 2
        # lower a length while deleting what follows
        for i in range(len(best)):
            if i < len(best) and best[i] > 0:
                for k in (1, 2, 3, 4, 6):
                    if i + 1 + k <= len(best) and attempt(best[:i] + [best[i] - 1] + best[i + 1 + k:]):
                        improved = True
                        break
        for i in range(len(best)):
            if i >= len(best) or best[i] == 0:
                continue
            if attempt(best[:i] + [0] + best[i + 1:]):
                improved = True
                continue
            lo, hi = 0, best[i]
            while lo + 1 < hi and i < len(best):
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    hi = mid
                else:
                    lo = mid
                if i >= len(best):
                    break
            if i < len(best) and best[i] > 0:
                attempt(best[:i] + [best[i] - 1] + best[i + 1:])
    return best, best_res, count[0]


def case_rng(seed, pid, unit, index):
    h = hashlib.sha256(('%s/%s/%s/%s' % (seed, pid, unit, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.discards = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.per_unit = {}
        self.choices = 0

    def add(self, unit, data, res):
        if res == 'discard':
            self.discards += 1
            return
        n = max(1, data.evals)
        self.evaluations += n
        self.choices += len(data.choices)
        self.per_unit[unit] = self.per_unit.get(unit, 0) + n
        for k in data.keys:
            self.keys.add(hashlib.sha1((unit + '|' + k).encode('utf-8', 'replace')).digest()[:10])
        for l, c in data.labels.items():
            l = unit + ':' + l
            self.labels[l] = self.labels.get(l, 0) + c
        if data.keys and len(self.samples) < 40 and sum(1 for s in self.samples if s['unit'] == unit) < 2:
            self.samples.append({'unit': unit, 'case': trim(data.case)})

    def merge(self, o):
        self.evaluations += o['evaluations']
        self.discards += o['discards']
        self.choices += o['choices']
        self.keys |= o['keys']
        for l, c in o['labels'].items():
            self.labels[l] = self.labels.get(l, 0) + c
        for l, c in o['per_unit'].items():
            self.per_unit[l] = self.per_unit.get(l, 0) + c
        for s in o['samples']:
            if sum(1 for t in self.samples if t['unit'] == s['unit']) < 2:
                self.samples.append(s)

    def dump(self):
        return {'evaluations': self.evaluations, 'discards': self.discards, 'keys': self.keys,
                'labels': self.labels, 'samples': self.samples, 'per_unit': self.per_unit,
                'choices': self.choices}


def trim(case, limit=1500):
    out = {}
    for k, v in case.items():
        s = v if isinstance(v, str) else repr(v)
        out[k] = s if len(s) <= limit else s[:limit] + '...'
    return out

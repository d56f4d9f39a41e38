"""Choice-sequence property-based testing engine.

A test case is a function of a sequence of bounded integer choices. Random search draws them from a seeded generator;
shrinking edits the sequence (delete spans, zero, lower, sort) and replays. A replay file holds the sequence and the
rendered case. Everything is deterministic for a given seed, apart from how many cases fit in the time budget.
"""
import random, time


class Stop(Exception):
    """The case ran out of recorded choices, or rejected itself."""


class Reject(Exception):
    """The generated case is outside of the domain of the property."""


class Data:
    MAX = 20000

    def __init__(self, rng=None, choices=None):
        self.rng = rng
        self.prefix = choices
        self.choices = []
        self.labels = {}

    def below(self, n):
        """An integer in [0, n); 0 is the simplest."""
        if n <= 1:
            return 0
        at = len(self.choices)
        if at >= self.MAX:
            raise Stop()
        if self.prefix is not None:
            if at >= len(self.prefix):
                if self.rng is None:
                    v = 0
                else:
                    v = self.rng.randrange(n)
            else:
                v = self.prefix[at] % n if self.prefix[at] >= n else self.prefix[at]
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        return v

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def bool(self, p=0.5):
        """True with probability about p; False is the simplest."""
        return self.below(1000) >= 1000 - int(p * 1000)

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], the first one is the simplest."""
        total = sum(w for w, _ in pairs)
        at = self.below(total)
        for w, v in pairs:
            if at < w:
                return v
            at -= w
        raise AssertionError

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1


class Failure(Exception):
    """kind: stable class of the failure (kept while shrinking). message: for people."""

    def __init__(self, kind, message):
        Exception.__init__(self, "%s: %s" % (kind, message))
        self.kind = kind
        self.message = message


def attempt(test, data):
    """Runs one case. Returns (status, case, failure), status: ok, reject, fail."""
    try:
        case = test.generate(data)
    except (Reject, Stop, RecursionError):
        return "reject", None, None
    try:
        test.check(case)
    except Reject:
        return "reject", case, None
    except Failure as f:
        return "fail", case, f
    return "ok", case, None


def shrink(test, choices, failure, deadline):
    """Returns (choices, case, failure) of the smallest failing case found, same kind of failure."""
    best = list(choices)
    best_fail = failure
    best_case = None
    seen = set()

    def ok(cand):
        nonlocal best, best_fail, best_case
        if time.time() > deadline:
            return False
        key = tuple(cand)
        if key in seen:
            return False
        seen.add(key)
        data = Data(choices=list(cand))
        status, case, fail = attempt(test, data)
        if status == "fail" and fail.kind == failure.kind:
            used = data.choices
            if (len(used), used) < (len(best), best) or best_case is None:
                best, best_fail, best_case = list(used), fail, case
                return True
        return False

    ok(best)
    if best_case is None:
        data = Data(choices=list(best))
        try:
            best_case = test.generate(data)
        except Exception:
            pass
    improved = True
    while improved and time.time() < deadline:
        improved = False
        for size in (256, 128, 64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0 and time.time() < deadline:
                if ok(best[:i] + best[i + size:]):
                    improved = True
                    i = min(i, len(best)) - size
                else:
                    # deleting a span often needs the count drawn just before it to be lowered too
                    if i > 0 and best[i - 1] > 0 and ok(best[:i - 1] + [best[i - 1] - 1] + best[i + size:]):
                        improved = True
                    i -= max(1, size // 2)
        for size in (32, 8, 1):
            i = len(best) - size
            while i >= 0 and time.time() < deadline:
                if any(best[i:i + size]) and ok(best[:i] + [0] * size + best[i + size:]):
                    improved = True
                i -= size
        i = len(best) - 1
        while i >= 0 and time.time() < deadline:
            if i < len(best) and best[i] > 0:
                lo, hi = 0, best[i]
                while lo < hi and time.time() < deadline:
                    mid = (lo + hi) // 2
                    if ok(best[:i] + [mid] + best[i + 1:]):
                        improved = True
                        hi = mid
                        if i >= len(best):
                            break
                    else:
                        lo = mid + 1
            i -= 1
    return best, best_case, best_fail

"""Choice-sequence generation: every random decision of a generator is one integer drawn from a
Src, so that any case can be replayed from its recorded list of integers and shrunk by editing
that list (deleting blocks, zeroing, halving), whatever the generator builds from it."""
import random


class Overrun(Exception):
    pass


class Src:
    """draw(n) -> 0..n-1.  Fresh: from a seeded PRNG.  Replay: from a list (missing = 0)."""
    __slots__ = ("rng", "pre", "i", "log", "limit", "spans", "force")

    def __init__(self, seed=None, choices=None, limit=200000):
        self.rng = random.Random(seed) if choices is None else None
        self.pre = choices
        self.i = 0
        self.log = []
        self.limit = limit
        self.force = []         # outcomes of the first draws, decided by the check (and recorded like all others)

    def draw(self, n):
        if n <= 1:
            return 0
        if self.force:
            v = self.force.pop(0) % n
        elif self.pre is None:
            v = self.rng.randrange(n)
        else:
            v = self.pre[self.i] if self.i < len(self.pre) else 0
            if v >= n:
                v = v % n
        self.i += 1
        if self.i > self.limit:
            raise Overrun
        self.log.append(v)
        return v

    # helpers; for all of them 0 is the "simplest" outcome
    def bool(self, p=0.5):
        """True with probability p; shrinks to False"""
        return self.draw(1000) >= 1000 - int(p * 1000)

    def pick(self, xs):
        return xs[self.draw(len(xs))]

    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        r = self.draw(tot)
        for w, x in pairs:
            if r < w:
                return x
            r -= w

    def range(self, lo, hi):
        """inclusive; shrinks to lo"""
        return lo + self.draw(hi - lo + 1)

    def int_bits(self, bits):
        return self.draw(1 << bits)

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = i - self.draw(i + 1)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def sample(self, xs, k):
        return self.shuffle(xs)[:k]


def shrink(choices, still_fails, budget=400, deadline=None):
    """greedy minimisation of a choice list; still_fails(list) -> normalised list or None"""
    import time
    best = list(choices)
    n = [0]

    def attempt(c):
        if n[0] >= budget or (deadline and time.time() > deadline):
            return None
        n[0] += 1
        r = still_fails(c)
        if r is None:
            return None
        r = list(r)
        key = (len(r), r)
        return r if key < (len(best), best) else None

    improved = True
    while improved and n[0] < budget and not (deadline and time.time() > deadline):
        improved = False
        # delete blocks
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                r = attempt(best[:i] + best[i + size:])
                if r is not None:
                    best = r
                    improved = True
                    i = min(i, len(best)) - size
                else:
                    i -= size
            size //= 2
        # zero blocks, then lower single values
        for size in (8, 4, 2, 1):
            i = 0
            while i < len(best):
                blk = best[i:i + size]
                if any(blk):
                    r = attempt(best[:i] + [0] * len(blk) + best[i + size:])
                    if r is not None:
                        best = r
                        improved = True
                i += size
        for i in range(len(best)):
            if i < len(best) and best[i] > 1:
                for v in (1, best[i] // 2, best[i] - 1):
                    if i < len(best) and 0 < v < best[i]:
                        r = attempt(best[:i] + [v] + best[i + 1:])
                        if r is not None:
                            best = r
                            improved = True
                            break
        if n[0] >= budget:
            break
    return best

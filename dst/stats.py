"""Concentration bounds: deterministic verdicts with a stated error probability."""
import math

L = 32.0        # exp(-L) per one-sided test: about 1e-14


class Martingale:
    """Sum of (indicator - its conditional probability); Bernstein/Freedman bound."""

    def __init__(self):
        self.s = self.v = 0.0
        self.n = 0

    def add(self, hit, p, w=1.0):
        """w: any weight in [-1, 1] fixed before the draw."""
        p = min(max(p, 0.0), 1.0)
        self.s += w * ((1.0 if hit else 0.0) - p)
        self.v += w * w * p * (1.0 - p)
        self.n += 1

    def bad(self):
        # Freedman: P(S >= t, V <= v) <= exp(-t^2 / (2 v + 2 t / 3)); v is taken on a grid of powers of 2
        if self.n == 0:
            return False
        v = max(2.0 ** math.ceil(math.log2(max(self.v, 1.0))), 1.0)
        lg = L + 4.0
        t = lg / 3.0 + math.sqrt(lg * lg / 9.0 + 2.0 * v * lg)
        return abs(self.s) > t


class Moments:
    """Independent standard normal draws: mean and sum of squares."""

    def __init__(self):
        self.n = 0
        self.s1 = self.s2 = 0.0

    def add(self, z):
        self.n += 1
        self.s1 += z
        self.s2 += z * z

    def bad(self, lim=L):
        n = self.n
        if n == 0:
            return None
        if abs(self.s1) > math.sqrt(2.0 * lim * n):
            return "mean %.3g over %d draws" % (self.s1 / n, n)
        # Laurent-Massart bounds for chi-square with n degrees of freedom
        up = n + 2.0 * math.sqrt(n * lim) + 2.0 * lim
        lo = n - 2.0 * math.sqrt(n * lim)
        if self.s2 > up or self.s2 < lo:
            return "mean square %.3g over %d draws" % (self.s2 / n, n)
        return None


class Normals:
    """Draws claimed to be standard normal, independent of each other and of their predecessors.

    A row is one draw of a set of coordinates.  Besides mean and mean square per coordinate: two
    probabilities (shape), and means of draws turned by the sign of another one (dependence).
    """

    def __init__(self):
        self.per, self.cross, self.lag = {}, {}, {}
        self.mid, self.tail = Martingale(), Martingale()
        self.prev = {}

    def add(self, coords, z):
        for i, (j, x) in enumerate(zip(coords, z)):
            x = float(x)
            self.per.setdefault(j, Moments()).add(x)
            self.mid.add(abs(x) < 0.5, 0.38292492254802624)
            self.tail.add(abs(x) > 1.7, 0.08913092551708608)
            if i:
                self.cross.setdefault(j, Moments()).add(x if z[i - 1] > 0 else -x)
            if j in self.prev:
                self.lag.setdefault(j, Moments()).add(x if self.prev[j] > 0 else -x)
            self.prev[j] = x

    def bad(self):
        for name, d in (("", self.per), (", turned by the sign of its neighbour", self.cross),
                        (", turned by the sign of its predecessor", self.lag)):
            for j, m in sorted(d.items()):
                b = m.bad()
                if b:
                    return "coordinate %d%s: %s" % (j, name, b)
        for name, m in (("within 0.5", self.mid), ("beyond 1.7", self.tail)):
            if m.bad():
                return "%d draws: %.1f more %s than for a normal law" % (m.n, m.s, name)
        return None


class Coins:
    """Acceptances of given probabilities, independent of their predecessors."""

    def __init__(self):
        self.all = Martingale()
        self.lags = [Martingale() for _ in range(3)]
        self.last = [0.0, 0.0, 0.0]

    def add(self, hit, p):
        self.all.add(hit, p)
        for m, w in zip(self.lags, self.last):
            if w:
                m.add(hit, p, w)
        self.push((1.0 if hit else 0.0) - min(max(p, 0.0), 1.0))

    def push(self, w=0.0):
        self.last = [w] + self.last[:2]

    def bad(self):
        if self.all.bad():
            return "%d uphill proposals: %.1f more accepted than their probabilities explain" % (self.all.n, self.all.s)
        for i, m in enumerate(self.lags):
            if m.bad():
                return "%d uphill proposals: acceptance depends on the one %d steps before (%+.1f)" % (m.n, i + 1, m.s)
        return None


class Bounded:
    """Sum of weighted centred terms from an interval of width at most one (Hoeffding-Azuma)."""

    def __init__(self, width=1.0):
        self.n, self.s, self.width = 0, 0.0, width

    def add(self, z, w=1.0):
        self.n += 1
        self.s += z * w

    def bad(self):
        # P(|S| >= t) <= 2 exp(-2 t^2 / (n width^2)); n on a grid of powers of 2
        if self.n == 0:
            return False
        n = 2.0 ** math.ceil(math.log2(self.n))
        return abs(self.s) > self.width * math.sqrt(0.5 * (L + 6.0) * n)


def binomial_bad(k, n, p, upper_only=False, lim=L):
    """Chernoff: are k hits in n independent trials of probability p (upper_only: at most p) too unlikely?"""
    if n == 0:
        return False
    q = k / float(n)
    if upper_only and q <= p:
        return False
    kl = 0.0
    if q > 0.0:
        kl += q * math.log(q / p) if p > 0.0 else math.inf
    if q < 1.0:
        kl += (1.0 - q) * math.log((1.0 - q) / (1.0 - p)) if p < 1.0 else math.inf
    return n * kl > lim

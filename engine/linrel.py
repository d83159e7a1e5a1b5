"""Linear relations between the numbers of a path: a small domain of linear inequalities over terms.

A form is (dict atom -> coefficient, constant). `ring` reads a term modulo the word size, which is exact for every
unsigned sum and difference; `Lin.form` reads it as an integer, a difference only where the facts exclude that it wraps.
Positions and lengths are taken to be small enough that adding two of them does not wrap."""
from fractions import Fraction
from absint import C, nonneg, mentions

WORD = 1 << 64


def signed(k):
    k %= WORD
    return k - WORD if k >= WORD // 2 else k


def plus(f, g, m=1):
    d = dict(f[0])
    for a, k in g[0].items():
        d[a] = d.get(a, 0) + m * k
        if d[a] == 0:
            del d[a]
    return d, f[1] + m * g[1]


def parts(t):
    """how a term is put together: ('c', k) ('+', a, b) ('-', a, b) or None for an atom"""
    if t[0] == 'c' and isinstance(t[1], int):
        return ('c', signed(t[1]))
    if t[0] == 'add':
        return ('+', t[1], ('c', t[2]) if isinstance(t[2], int) else t[2])
    if t[0] == 'sum':
        return ('+', t[1], t[2])
    if t[0] == 'neg':
        return ('-', C(0), t[1])
    if t[0] == 'op' and t[1] in '+-':
        return (t[1], t[2], t[3])
    return None


def ring(t, canon=lambda a: a):
    p = parts(t)
    if p is None:
        if t[0] == 'op' and t[1] == '*' and t[2][0] == 'c':
            f = ring(t[3], canon)
            return {a: k * t[2][1] for a, k in f[0].items()}, f[1] * t[2][1]
        return {canon(t): 1}, 0
    if p[0] == 'c':
        return {}, p[1]
    return plus(ring(p[1], canon), ring(p[2], canon), 1 if p[0] == '+' else -1)


def req(f, g):
    """two ring forms are the same number modulo the word size"""
    d, k = plus(f, g, -1)
    return not d and k % WORD == 0


class Lin:
    def __init__(self, facts, axioms=(), more=(), unsigned=lambda t: t[0] in ('fld', 'elem', 'hv')):
        self.unsigned = unsigned
        self.facts = facts
        self.rows = []            # forms known to be >= 0
        self.atoms = set()
        self.forms = {}
        todo = []
        self.apart = [(a[1], a[2]) for a, v in list(facts.items()) + list(more) if a[0] == 'eq' and not v and
                      not any(x[0] in ('s', 'null', 'rec', 'it', 'addr') for x in a[1:])]
        for a, v in list(facts.items()) + list(more):
            if a[0] in ('lt', 'eq', 'T'):
                todo.append((a, v))
        for _ in range(3):       # a difference may become readable once the facts that bound it are there
            n = len(self.rows)
            self.rows, self.forms = list(self.rows), {}
            rows = []
            for a, v in todo:
                rows += self.row(a, v)
            self.rows = [r for r in rows if r is not None]
            for x, y in axioms:     # x <= y
                self.rows.append(plus(self.form(y), self.form(x), -1))
            self.bounds()
            for x, y in self.apart:
                f = plus(self.form(y), self.form(x), -1)
                g = ({a: -k for a, k in f[0].items()}, -f[1])
                for r in (f, g):
                    if self.implied(r):
                        self.rows.append((r[0], r[1] - 1))
            if _ and len(self.rows) == n:
                break

    def form(self, t):
        if t in self.forms:
            return self.forms[t]
        p = parts(t)
        if p is None:
            self.atoms.add(t)
            f = ({t: 1}, 0)
        elif p[0] == 'c':
            f = ({}, p[1])
        elif p[0] == '+':
            f = plus(self.form(p[1]), self.form(p[2]))
        else:
            a, b = self.form(p[1]), self.form(p[2])
            f = plus(a, b, -1)
            # a count running down, and anything known not to be negative, are read as they stand
            if p[1] != C(0) and not self.implied(f):
                self.atoms.add(t)
                f = ({t: 1}, 0)
                return f
        self.forms[t] = f
        return f

    def row(self, a, v):
        if a[0] == 'lt':
            x, y = self.form(a[1]), self.form(a[2])
            r = plus(y, x, -1)
            return [(r[0], r[1] - 1)] if v else [({k: -c for k, c in r[0].items()}, -r[1])]
        if a[0] == 'eq':
            if a[1][0] in ('s', 'null', 'rec') or a[2][0] in ('s', 'null', 'rec') or not v:
                return []
            x, y = self.form(a[1]), self.form(a[2])
            return [plus(x, y, -1), plus(y, x, -1)]
        if a[1][0] in ('it', 'addr'):
            return []
        x = self.form(a[1])
        if not v:
            return [x, ({k: -c for k, c in x[0].items()}, -x[1])]
        if nonneg(a[1]) or all(self.nonneg(t) for t in x[0]) and all(c > 0 for c in x[0].values()) and x[1] >= 0:
            return [(x[0], x[1] - 1)]
        return []

    def nonneg(self, t):
        return nonneg(t) or self.unsigned(t) or t[0] == 'call' and t[1] in ('std::lower_bound', 'std::upper_bound') or \
            t[0] == 'op' and t[1] == '&' or t[0] == 'ix'

    def bounds(self):
        for t in list(self.atoms):
            if self.nonneg(t):
                self.rows.append(({t: 1}, 0))
            if t[0] == 'op' and t[1] == '&':
                for c in t[2:]:
                    if c[0] == 'c' and c[1] >= 0:
                        self.rows.append(({t: -1}, c[1]))
            if t[0] == 'call' and t[1] in ('std::lower_bound', 'std::upper_bound'):
                self.rows.append(plus(self.form(t[4]), ({t: 1}, 0), -1))

    def implied(self, f):
        """f >= 0 under the rows"""
        return infeasible(self.rows + [({a: -k for a, k in f[0].items()}, -f[1] - 1)])

    def le(self, x, y):
        f = plus(self.form(y), self.form(x), -1)
        self.bounds()
        return self.implied(f)

    def lt(self, x, y):
        f = plus(self.form(y), self.form(x), -1)
        self.bounds()
        return self.implied((f[0], f[1] - 1))

    def eq(self, x, y):
        if req(ring(x), ring(y)):
            return True
        f = plus(self.form(y), self.form(x), -1)
        self.bounds()
        return self.implied(f) and self.implied(({a: -k for a, k in f[0].items()}, -f[1]))

    def bad(self):
        """the facts exclude each other"""
        return infeasible(self.rows)


def infeasible(rows):
    """Fourier-Motzkin over the rationals, with rounding of the constants of integer rows"""
    rows = list({(tuple(sorted(d.items(), key=repr)), k): (d, k) for d, k in rows}.values())
    # only what hangs together with the last row matters when nothing else is contradictory
    while True:
        vs = {}
        for d, k in rows:
            if not d and k < 0:
                return True
            for a in d:
                vs.setdefault(a, [0, 0])[0 if d[a] > 0 else 1] += 1
        if not vs:
            return False
        v = min(vs, key=lambda a: (vs[a][0] * vs[a][1], repr(a)))
        pos = [r for r in rows if r[0].get(v, 0) > 0]
        neg = [r for r in rows if r[0].get(v, 0) < 0]
        rest = [r for r in rows if v not in r[0]]
        new = {}
        for p in pos:
            for n in neg:
                a, b = p[0][v], -n[0][v]
                d, k = {}, b * p[1] + a * n[1]
                for x in set(p[0]) | set(n[0]):
                    c = b * p[0].get(x, 0) + a * n[0].get(x, 0)
                    if c:
                        d[x] = c
                g = 0
                for c in d.values():
                    while c:
                        g, c = c, g % c
                g = abs(g)
                if g > 1:
                    d = {x: c // g for x, c in d.items()}
                    k = k // g
                key = tuple(sorted(d.items(), key=repr))
                if key not in new or new[key][1] > k:
                    new[key] = (d, k)
        rows = rest + list(new.values())
        if len(rows) > 600:
            return False

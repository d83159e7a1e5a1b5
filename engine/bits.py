"""Bit provenance: a number as 64 bits, each 0, 1, a named input bit, or unknown (None); conditions decided in three values;
a case split on input bits only where a condition depends on them."""
W = 64


def const(n):
    return [(n >> i) & 1 for i in range(W)]


def value(b):
    """the number, if every bit is known (two's complement)"""
    if any(x not in (0, 1) for x in b):
        return None
    n = sum(x << i for i, x in enumerate(b))
    return n - (1 << W) if b[-1] else n


class Bits:
    """evaluates terms: `inputs` maps a term to its bits, `env` the input bits assumed so far"""
    def __init__(self, inputs, env=None):
        self.inputs, self.env = inputs, env or {}

    def sub(self, b):
        return [self.env.get(x, x) if isinstance(x, tuple) else x for x in b]

    def ev(self, t):
        if t in self.inputs:
            return self.sub(self.inputs[t])
        k = t[0]
        if k == 'c' and isinstance(t[1], int):
            return const(t[1])
        if k in ('add', 'sum'):
            return self.plus(self.ev(t[1]), const(t[2]) if isinstance(t[2], int) else self.ev(t[2]))
        if k in ('sgn', 'trunc'):
            b = self.ev(t[3])
            w = t[1]
            return b[:w] + [0 if t[2] else b[w - 1]] * (W - w)
        if k == 'op':
            a, b = self.ev(t[2]), self.ev(t[3])
            if t[1] == '|':
                return [1 if 1 in (x, y) else y if x == 0 else x if y == 0 or x == y else None for x, y in zip(a, b)]
            if t[1] == '&':
                return [0 if 0 in (x, y) else y if x == 1 else x if y == 1 or x == y else None for x, y in zip(a, b)]
            if t[1] == '^':
                return [None if None in (x, y) else y if x == 0 else x if y == 0 else
                        0 if x == y else 1 if {x, y} == {0, 1} else None for x, y in zip(a, b)]
            if t[1] in ('<<', '>>'):
                n = value(b)
                if n is None or not 0 <= n < W:
                    return [None] * W
                return [0] * n + a[:W - n] if t[1] == '<<' else a[n:] + [a[-1]] * n
            if t[1] == '+':
                return self.plus(a, b)
            if t[1] == '-':
                x, y = value(a), value(b)
                return const(x - y) if x is not None and y is not None else [None] * W
            if t[1] in ('%', '/') and value(b) is not None and value(b) > 0 and a[-1] == 0 and value(b) & (value(b) - 1) == 0:
                n = value(b).bit_length() - 1
                return a[:n] + [0] * (W - n) if t[1] == '%' else a[n:] + [0] * n
            if t[1] == '*':
                x, y = value(a), value(b)
                if y is not None and y > 0 and y & (y - 1) == 0:
                    n = y.bit_length() - 1
                    return [0] * n + a[:W - n]
                return const(x * y) if x is not None and y is not None else [None] * W
        if k in ('lt', 'eq', 'T', 'not'):
            r = self.holds(t)
            return const(int(r)) if r in (True, False) else [r if isinstance(r, tuple) else None] + [0] * (W - 1)
        return [None] * W

    def plus(self, a, b):
        x, y = value(a), value(b)
        if x is not None and y is not None:
            return const(x + y)
        out, carry = [], 0
        for p, q in zip(a, b):
            if carry == 0 and p == 0:
                out.append(q)
            elif carry == 0 and q == 0:
                out.append(p)
            elif None in (p, q, carry) or any(isinstance(z, tuple) for z in (p, q, carry)):
                return out + [None] * (W - len(out))
            else:
                s = p + q + carry
                out.append(s & 1)
                carry = s >> 1
        return out

    def holds(self, t):
        """True, False, an input bit it depends on, or None"""
        if t[0] == 'not':
            r = self.holds(t[1])
            return not r if isinstance(r, bool) else r
        if t[0] == 'T':
            b = self.ev(t[1])
            if 1 in b:
                return True
            return next((x for x in reversed(b) if x != 0), False)
        if t[0] == 'eq':
            a, b = self.ev(t[1]), self.ev(t[2])
            if any({x, y} == {0, 1} for x, y in zip(a, b)):
                return False
            for x, y in zip(reversed(a), reversed(b)):
                if x != y or x is None:
                    return next((z for z in (x, y) if isinstance(z, tuple)), None)
            return True
        if t[0] == 'lt':
            a, b = self.ev(t[1]), self.ev(t[2])
            a, b = a[:-1] + [flip(a[-1])], b[:-1] + [flip(b[-1])]
            lo, hi = (lambda z: sum((x == 1) << i for i, x in enumerate(z))), (lambda z: sum((x != 0) << i for i, x in enumerate(z)))
            if hi(a) < lo(b):
                return True
            if lo(a) >= hi(b):
                return False
            for x, y in zip(reversed(a), reversed(b)):
                if x == y and x is not None:
                    continue
                if (x, y) == (0, 1):
                    return True
                if (x, y) == (1, 0):
                    return False
                z = next((z for z in (x, y) if isinstance(z, tuple)), None)
                return ('!', z[1]) if z is not None and z[0] == '!' else z
            return False
        return None


def flip(x):
    if x in (0, 1):
        return 1 - x
    return None if x is None else x[1] if x[0] == '!' else ('!', x)


def byte(name, signed):
    lit = [(name, i) for i in range(8)]
    return lit + [lit[7] if signed else 0] * (W - 8)


def cases(paths, inputs, decide, limit=20000):
    """splits the inputs until each path is live or not: yields (env, Bits, live path) where `decide` (env -> key or bit) is settled;
    None where the conditions cannot be read"""
    todo, n = [{}], 0
    while todo:
        env = todo.pop()
        n += 1
        if n > limit:
            yield env, None, None
            return
        B = Bits(inputs, env)
        key = decide(B)
        split = key[1] if key[0] == 'bit' else None
        live = []
        if split is None:
            for p in paths:
                r = True
                for a, v in p[0]:
                    h = B.holds(a)
                    if isinstance(h, bool):
                        if h != v:
                            r = False
                            break
                    elif r is True:
                        r = h
                    elif r is None:
                        r = h
                if r is not False:
                    live.append((r, p))
            if any(r is None for r, _ in live):
                yield env, B, (key, None)
                continue
            split = next((r for r, _ in live if r is not True), None)
        if split is not None:
            if split[0] == '!':
                split = split[1]
            for b in (0, 1):
                todo.append(dict(env, **{}) | {split: b})
            continue
        yield env, B, (key, [p for _, p in live])

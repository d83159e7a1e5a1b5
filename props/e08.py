"""E08: the number of values of a type: exact where it can be told, "open" otherwise."""
import refr
from absint import Interp, Budget, C, NULL, TRUE, FALSE, St, at, read, fmt, decide, project, mk_eq, mk_lt, size_of, mentions
from front import loc
from spec import If, odd, compare, fold_of, leaves

RULE = 'sizes-exact-or-open'
SRULE = 'size-of-a-kind'
E = ('obj', 'e')
INH = ('obj', 'inheritsFixed')
OPEN = C(4294967295)
ADD, MUL, SIZEOF = 'refract::operator+', 'refract::operator*', 'refract::sizeOf'
FIND, MERGE, RESOLVE = 'refract::InfoElements::find', 'refract::dsd::Extend::merge', 'refract::resolve'
PREDS = {n: 'refract::' + n for n in ('hasFixedTypeAttr', 'hasFixedTypeTypeAttr', 'hasNullableTypeAttr', 'isVariable',
                                      'definesValue')}


def check(R, P):
    R.rule('The counter\'s operations are followed on all paths with any two counters: a sum or product may be answered '
           'only where one operand makes it trivial or a fact of the path excludes overflow; "open" only where an '
           'operand is open or the exact result is found to be too large; comparing compares the count.')
    R.rule('The size of each kind of element is followed on all paths and held against its definition, a decision tree '
           'over what is asked of the element; a size of children must be the product, or sum, over all of them.')
    arithmetic(R, P)
    kinds(R, P)
    R.floor('operation of the counter', 5)
    R.floor('size of a kind', 13)


# ---- the counter ---------------------------------------------------------------------------------------
L, RR = ('fld', ('obj', 'l'), 'data_'), ('fld', ('obj', 'r'), 'data_')


def data(v):
    if v is None:
        return None
    if v[0] == 'rec':
        d = dict(v[2])
        return d.get(('fld', 'data_')) or d.get('data_')
    return project(v, ('fld', 'data_'))


def field(P):
    rec = P.recs.get('refract::cardinal')
    fl = [f for f in (rec or {'fields': []})['fields'] if not f.get('static')]
    return fl[0] if len(fl) == 1 else None


def arithmetic(R, P):
    global OPEN, L, RR
    fl = field(P)
    if fl is None:
        R.lose('the counter and its one number')
        return
    fns = {}
    for f in P.fns.values():
        if f.get('body') is None or not all('refract::cardinal' in P.ty(p['t'])['s'] for p in f['ps']):
            continue
        if f['q'] in (ADD, MUL, 'refract::operator==', 'refract::operator!=') and len(f['ps']) == 2:
            fns[f['q']] = f
        if f['q'] == 'refract::finite' and len(f['ps']) == 1:
            fns[f['q']] = f
    for q in (ADD, MUL, 'refract::operator==', 'refract::operator!=', 'refract::finite'):
        f = fns.get(q)
        if f is None:
            R.lose(q + ' of the counter')
            continue
        R.seen(f)
        args = [('obj', p) for p in 'lr'][:len(f['ps'])]
        I = Interp(P, hooks=refr.hooks(), max_states=300)
        try:
            outs = I.run(f, ('obj', 'this'), args)
        except Budget:
            R.undecided(loc(f), q + ': too many paths')
            continue
        ok = True
        for o in outs:
            v = I.val(o.st, o.val) if o.val is not None else None
            r = judge(P, I, f, q, o.st, v)
            if r is True:
                continue
            if r is None and q in (ADD, MUL) and not wide(P, f):
                r = refuted(o.st, data(v), q)
            if r is None:
                ok = None
                R.undecided(loc(f), '%s: how %s comes about is not followed' % (q, fmt(v)[:80] if v else 'the answer'))
            else:
                ok = False
                R.violate(loc(f), RULE, '%s of two counters %s' % (q.rsplit('::', 1)[-1], r), q + '|' + r[:80])
        R.ob('operation of the counter', '%s %s (%d paths)' % (loc(f), q, len(outs)), ok is True)


M = 0xFFFFFFFF
PROBES = (0, 1, 2, 3, 7, 0x8000, 0xFFFF, 0x10000, 0x10001, 0x55555555, 0x7FFFFFFF, 0x80000000, 0x80000001, M - 2, M - 1, M)


def number(t, a, b):
    """the value of a term over the two counts, in the 32 bits of the counter; None when it is about anything else"""
    if t == L:
        return a
    if t == RR:
        return b
    if t[0] == 'c':
        return t[1] & M if isinstance(t[1], int) else None
    if t[0] in ('sum', 'add'):
        xs = [number(x, a, b) if isinstance(x, tuple) else x for x in t[1:]]
        return None if None in xs else sum(xs) & M
    if t[0] == 'neg':
        x = number(t[1], a, b)
        return None if x is None else -x & M
    if t[0] == 'op' and len(t) == 4 and t[1] in '+-*/%':
        x, y = number(t[2], a, b), number(t[3], a, b)
        if x is None or y is None or t[1] in '/%' and y == 0:
            return None
        return {'+': x + y, '-': x - y, '*': x * y}[t[1]] & M if t[1] in '+-*' else x // y if t[1] == '/' else x % y
    return None


def refuted(st, d, q):
    """two counts the path is taken for and for which its answer is another than the exact one"""
    if d is None:
        return None
    for a in PROBES:
        for b in PROBES:
            for f, w in st.facts.items():
                if f[0] == 'live':
                    continue
                if f[0] == 'T':
                    x = number(f[1], a, b)
                    x = None if x is None else x != 0
                elif f[0] in ('lt', 'eq'):
                    x, y = number(f[1], a, b), number(f[2], a, b)
                    x = None if x is None or y is None else x < y if f[0] == 'lt' else x == y
                else:
                    x = None
                if x is not w:
                    break
            else:
                have = number(d, a, b)
                want = min(a + b if q == ADD else a * b, M)
                if have is not None and have != want:
                    return 'answers %d for %d and %d' % (have, a, b)
    return None


def known(st, t, c):
    """whether the fact that t is the constant c holds, fails, or is open on the path"""
    if t == c:
        return True
    if t[0] == 'c' and c[0] == 'c':
        return False
    d = decide(st, mk_eq(t, c))
    if d is None and c[0] == 'c':
        lo, hi = bounds(st, t)
        d = False if c[1] < lo or c[1] > hi else True if lo == hi == c[1] else None
    return d


def bounds(st, t):
    """least and greatest count the facts about it and constants leave a number"""
    lo, hi = 0, OPEN[1]
    for a, d in st.facts.items():
        if a == ('T', t):
            lo, hi = (max(lo, 1), hi) if d else (lo, 0)
        if a[0] == 'eq' and t in a[1:]:
            c = a[2] if a[1] == t else a[1]
            if c[0] == 'c':
                if d:
                    lo = hi = c[1]
                elif c[1] == lo:
                    lo += 1
                elif c[1] == hi:
                    hi -= 1
        if a[0] == 'lt' and a[1] == t and a[2][0] == 'c':
            lo, hi = (lo, min(hi, a[2][1] - 1)) if d else (max(lo, a[2][1]), hi)
        if a[0] == 'lt' and a[2] == t and a[1][0] == 'c':
            lo, hi = (max(lo, a[1][1] + 1), hi) if d else (lo, min(hi, a[1][1]))
    return lo, hi


def judge(P, I, f, q, st, v):
    if q in ('refract::operator==', 'refract::operator!=', 'refract::finite'):
        x, y = (L, RR) if q != 'refract::finite' else (L, OPEN)
        want = q == 'refract::operator=='
        if v in (TRUE, FALSE):
            d = known(st, x, y)
            if d is None:
                return 'answers %s on a path that has not compared the counts' % fmt(v)
            return True if (d == (v == TRUE)) == want else 'answers %s for counts that are %s' % (
                fmt(v), 'the same' if d else 'different')
        if v == mk_eq(x, y):
            return True if want else 'answers whether the counts are the same'
        if v == ('not', mk_eq(x, y)):
            return True if not want else 'answers whether the counts differ'
        return None
    d = data(v)
    if d is None:
        return None
    over = overflow(P, f, st, q)
    el, er = known(st, L, OPEN), known(st, RR, OPEN)
    zl, zr = known(st, L, C(0)), known(st, RR, C(0))
    for x, z in ((L, zl), (RR, zr)):
        if z is not False and any(divides(a, x) for a in st.facts):
            return 'divides by an operand that may be nothing'
    if q == ADD:
        if d == OPEN:
            if el or er or over:
                return True
            if el is False and er is False and over is False or not strange(st):
                return 'answers open where the sum may be a plain number'
            return None
        if d in (L, RR):
            other = RR if d == L else L
            if known(st, other, C(0)) or known(st, d, OPEN):
                return True
            return 'answers one operand where the other may be more than nothing' if not strange(st) else None
        if d[0] == 'c':
            return True if d == C(0) and zl and zr else 'answers %s' % fmt(d)
        if is_sum(d):
            if over is False or zl or zr:
                return True
            if over is None and strange(st):
                return None
            return 'may wrap around: the sum is answered where nothing excludes that it is too large'
        return None
    if d == OPEN:
        if over == 'edge':
            return True if el or er else 'answers open for a product that just fits'
        if (el and zr is False) or (er and zl is False) or over:
            if zl or zr:
                return 'answers open for the product with nothing'
            if not over and (zl is None or zr is None):
                return 'may answer open for the product with nothing'
            return True
        if el and zr is None or er and zl is None:
            return 'may answer open for the product with nothing'
        return 'answers open where the product may be a plain number' if not strange(st) else None
    if d == C(0):
        return True if zl or zr else ('answers nothing where neither operand is nothing' if not strange(st) else None)
    if d in (L, RR):
        other = RR if d == L else L
        if known(st, other, C(1)) or known(st, d, C(0)):
            return True
        if known(st, d, OPEN) and known(st, other, C(0)) is False:
            return True
        return 'answers one operand where the other need not be one' if not strange(st) else None
    if is_prod(d):
        if over is False or any(known(st, x, C(k)) for x in (L, RR) for k in (0, 1)):
            return True
        if over is None and strange(st):
            return None
        return 'may wrap around: the product is answered where nothing excludes that it is too large'
    return None


def is_sum(d):
    return d[0] == 'sum' and sorted(d[1:], key=repr) == sorted((L, RR), key=repr) or \
        d[0] == 'op' and d[1] == '+' and set(d[2:]) == {L, RR}


def divides(a, x):
    return isinstance(a, tuple) and (a[:2] == ('op', '/') and len(a) > 3 and a[3] == x or any(divides(y, x) for y in a))


def is_prod(d):
    return d[0] == 'op' and d[1] == '*' and set(d[2:]) == {L, RR}


def plain(t):
    """one operand and a constant, or both: a fact there is a reading of"""
    return t in (L, RR) or t[0] == 'c'


def strange(st):
    """a fact about the operands which is none of equality with a constant and known overflow tests"""
    for a, d in st.facts.items():
        if a[0] == 'live' or not (mentions(a, L) or mentions(a, RR)):
            continue
        if a[0] == 'T' and plain(a[1]) or a[0] in ('eq', 'lt') and plain(a[1]) and plain(a[2]):
            continue
        return True
    return False


def wide(P, f):
    """whether some binary operation of the function is done in more bits than the counter has"""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g['f'] in seen:
            continue
        seen.add(g['f'])
        for n in walk(g.get('body')):
            if n.get('k') == 'bin' and n.get('o') in ('+', '*') and n.get('t') is not None:
                s = P.ty(n['t'])['s']
                if any(w in s for w in ('long', 'int64', 'size_t', 'double')):
                    return True
            h = P.fns.get(n.get('f')) if n.get('k') == 'call' else None
            if h is not None and h.get('body') is not None and len(seen) < 20:
                todo.append(h)
    return False


def walk(n):
    if isinstance(n, dict):
        yield n
        for x in n.values():
            yield from walk(x)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)


def overflow(P, f, st, q):
    """True: the exact result is found too large (or open itself); False: excluded; None: not told"""
    res = None
    ul, ur = bounds(st, L)[1], bounds(st, RR)[1]
    if (ul + ur if q == ADD else ul * ur) <= OPEN[1]:
        return False
    for a, d in st.facts.items():
        if a[0] not in ('lt', 'eq'):
            continue
        x, y = a[1], a[2]
        for l, r in ((L, RR), (RR, L)):
            room = ('op', '-', OPEN, r) if q == ADD else ('op', '/', OPEN, r)
            if a[0] == 'lt':
                # more than there is room for
                if (x, y) == (room, l):
                    return d
                # less than there is room for: no overflow; not less: only open or more when adding
                if (x, y) == (l, room):
                    if d:
                        return False
                    if q == ADD:
                        return True
                    res = 'edge'
                # a sum below its operand has wrapped around
                if q == ADD and is_sum(x) and y == l:
                    return d
            if a[0] == 'eq' and q == MUL and not d and r in (x, y) and any(
                    z[0] == 'op' and z[1] == '/' and is_prod(z[2]) for z in (x, y)):
                res = True
            if a[0] == 'eq' and q == MUL and d and any(
                    z[0] == 'op' and z[1] == '/' and is_prod(z[2]) and z[3] != w for z, w in ((x, y), (y, x))):
                res = False
        # computed in more bits
        big = is_sum if q == ADD else is_prod
        if a[0] == 'lt' and wide(P, f):
            if x == OPEN and big(y):
                return d
            if big(x) and y == OPEN:
                return not d
    return res


# ---- the size of each kind -------------------------------------------------------------------------------
def call(q, *a):
    return ('call', q, None) + a


def pred(n, x=E):
    return ('T', call(PREDS[n], x))


def num(k):
    return ('n', k)


def canon(st, v):
    """('n', k) | ('size', element, inherited) | ('+'|'*', operands sorted) | ('all', op, container, inherited) | None"""
    if v is None:
        return None
    while v[0] == 'fld' and v[2] == 'data_' or v[0] == 'rec':
        if v[0] == 'rec':
            d = data(v)
            if d is None:
                return None
            v = d
        else:
            v = v[1]
    if v[0] == 'c':
        return ('n', v[1])
    if v[0] == 'call' and v[1] == SIZEOF and len(v) in (4, 5):
        return ('size', v[3], inherited(st, v[4] if len(v) == 5 else FALSE))
    if v[0] == 'call' and v[1] in (ADD, MUL) and len(v) == 5:
        a, b = canon(st, v[3]), canon(st, v[4])
        return None if a is None or b is None else combine(v[1][-1], a, b)
    fo = fold_of(st, v)
    if fo is None:
        return None
    cont, lo, hi, start, acc, elem, steps, info = fo
    if not steps:
        return None
    if lo != C(0) or hi != size_of(cont):
        cont = ('part', cont, lo, hi)
    base = canon(st, start)
    if base is None:
        return None
    ops = set()
    for facts, nxt in steps:
        n = nxt
        while n is not None and (n[0] == 'fld' and n[2] == 'data_' or n[0] == 'rec'):
            n = data(n) if n[0] == 'rec' else n[1]
        if n is None or n[0] != 'call' or n[1] not in (ADD, MUL) or len(n) != 5:
            return None
        parts = [n[3], n[4]]
        mine = [x for x in parts if is_acc(x, acc)]
        other = [x for x in parts if not is_acc(x, acc)]
        if len(mine) != 1 or len(other) != 1:
            return None
        z = canon(st, other[0])
        if z is None or z[0] != 'size' or z[1] not in (at(elem), elem):
            return None
        ops.add((n[1][-1], z[2]))
    if len(ops) != 1:
        return None
    op, inh = ops.pop()
    return combine(op, base, ('all', op, cont, inh))


def is_acc(x, acc):
    while x[0] == 'fld' and x[2] == 'data_' or x[0] == 'rec':
        x = data(x) if x[0] == 'rec' else x[1]
        if x is None:
            return False
    return x == acc


def inherited(st, t):
    if t in (TRUE, FALSE):
        return t
    d = decide(st, t if t[0] in ('T', 'eq', 'lt', 'not', 'and', 'or') else ('T', t))
    return TRUE if d else FALSE if d is False else t


def combine(op, a, b):
    """a and b under the counter's own laws (nothing wins a product, one leaves it; open wins a sum)"""
    unit = 0 if op == '+' else 1
    for x, y in ((a, b), (b, a)):
        if x == ('n', unit):
            return y
        if op == '*' and x == ('n', 0) or op == '+' and x == ('n', OPEN[1]):
            return x
    if a[0] == b[0] == 'n':
        n = a[1] + b[1] if op == '+' else a[1] * b[1]
        return ('n', min(n, OPEN[1]))
    fl = []
    for x in (a, b):
        fl += list(x[1]) if x[0] == op else [x]
    return (op, tuple(sorted(fl, key=repr)))


def is_(mk):
    """leaf: the answer is the size mk(st) describes"""
    def leaf(st, v):
        want = mk(st)
        got = canon(st, v)
        if got is not None:
            got, want = settle(st, got), settle(st, want)
        if got == want:
            return None
        if got is None:
            return None if v is None else (None, 'answers %s' % fmt(v)[:100])
        return False, 'answers %s, not %s' % (show(got), show(want))
    return leaf


def settle(st, c):
    """the size where the facts tell the count of a part"""
    def num_of(c):
        for a, d in st.facts.items():
            if a[0] == 'eq' and d and a[1][0] == 'c' and a[2][0] == 'fld' and canon(st, a[2]) == c:
                return a[1][1]
            if a[0] == 'T' and not d and a[1][0] == 'fld' and a[1][2] == 'data_' and canon(st, a[1]) == c:
                return 0
        return None
    n = num_of(c)
    if n is not None:
        return num(n)
    if c[0] in ('+', '*'):
        r = settle(st, c[1][0])
        for x in c[1][1:]:
            r = combine(c[0], r, settle(st, x))
        return r
    return c


def show(c):
    if c[0] == 'n':
        return 'open' if c[1] == OPEN[1] else '%d' % c[1]
    if c[0] == 'size':
        return 'the size of %s (inheriting fixed: %s)' % (fmt(c[1])[:60], fmt(c[2])[:40])
    if c[0] == 'all' and c[2][0] == 'part':
        return 'the %s over part of %s' % ('sum' if c[1] == '+' else 'product', fmt(c[2][1])[:60])
    if c[0] == 'all':
        return 'the %s over all of %s (inheriting fixed: %s)' % ('sum' if c[1] == '+' else 'product', fmt(c[2])[:60],
                                                             fmt(c[3])[:40])
    return '(' + (' %s ' % c[0]).join(show(x) for x in c[1]) + ')'


def nullable(mk):
    """tree: the size mk describes, and one more for null where the element may be that"""
    return If(pred('hasNullableTypeAttr'), is_(lambda st: combine('+', mk(st), num(1))), is_(mk))


def const(k):
    return lambda st: num(k)


def kinds(R, P):
    HAS = ('T', ('fld', E, 'hasValue_'))
    DATA = ('fld', E, 'data_')
    EL = ('fld', DATA, 'elements_')
    inh = ('T', INH)

    def tree(k):
        open_ = nullable(const(OPEN[1]))
        if k == 'Null':
            return is_(const(1))
        if k == 'Object':
            def body(flag):
                return If(HAS, nullable(lambda st: ('all', '*', EL, flag)), nullable(const(1)))
            return If(inh, body(TRUE), If(pred('hasFixedTypeAttr'), body(TRUE), If(
                pred('hasFixedTypeTypeAttr'), body(FALSE), open_)))
        if k == 'Array':
            fixed = If(HAS, nullable(lambda st: ('all', '*', EL, TRUE)), nullable(const(1)))
            return If(inh, fixed, If(pred('hasFixedTypeAttr'), fixed, If(
                pred('hasFixedTypeTypeAttr'), If(HAS, open_, nullable(const(0))), open_)))
        if k == 'Member':
            V = ('fld', DATA, 'value_')
            return If(HAS, If(('T', V), If(pred('isVariable'), nullable(
                lambda st: combine('*', num(OPEN[1]), ('size', at(V), inherited(st, INH)))), nullable(
                lambda st: ('size', at(V), inherited(st, INH)))), is_(const(0))), is_(const(0)))
        if k == 'Enum':
            it = ('call', FIND, ('fld', E, 'attributes_'), ('s', 'enumerations'))
            return enum(it, inh)
        if k in ('String', 'Number', 'Boolean'):
            rest = open_ if k != 'Boolean' else nullable(const(2))
            fixed = If(pred('hasFixedTypeAttr'), nullable(const(1)), rest)
            return If(inh, If(pred('definesValue'), nullable(const(1)), fixed), fixed)
        if k == 'Extend':
            M = ('call', MERGE, DATA)
            return If(HAS, If(('T', M), is_(lambda st: ('size', at(M), inherited(st, INH))), is_(const(0))), is_(const(0)))
        if k == 'Ref':
            M = call(RESOLVE, E)
            return If(('T', M), is_(lambda st: ('size', at(M), inherited(st, INH))), is_(const(0)))
        if k == 'Holder':
            V = ('fld', DATA, 'data_')
            return If(HAS, If(('T', V), is_(lambda st: ('size', at(V), inherited(st, INH))), is_(const(0))), is_(const(0)))
        if k == 'Select':
            return If(HAS, is_(lambda st: ('all', '+', EL, inherited(st, INH))), is_(const(0)))
        if k == 'Option':
            return If(HAS, is_(lambda st: ('all', '*', EL, inherited(st, INH))), is_(const(0)))

    noinline = {SIZEOF, ADD, MUL, FIND, MERGE, RESOLVE} | set(PREDS.values())
    done = set()
    for f in P.named(SIZEOF):
        if f.get('body') is None or len(f['ps']) != 2:
            continue
        k = refr.kind_of(P.ty(f['ps'][0]['t'])['s'])
        if k is None:
            continue
        done.add(k)
        # own frames of the element's kind are followed, those of its children are what is asked for
        compare(R, P, f, tree(k), SRULE, 'size of a kind', args=[E, INH], what='the size of an element of kind ' + k,
                noinline=noinline)
    for k in refr.KINDS:
        if k not in done:
            R.lose('sizeOf for ' + k)


def enum(it, inh):
    """the enumerations of an enum: their sum, each fixed where the enum is"""
    def body(st, v):
        # what the attribute holds, as far as the path has looked
        arr = None
        for a, d in st.facts.items():
            if a[0] == 'eq' and d:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if y == refr.kc('Array') and x[0] == 'kind' and mentions(x, it):
                        arr = x[1]
        if arr is None:
            return ()
        has = decide(st, ('T', ('fld', arr, 'hasValue_')))
        return ('fld', ('fld', arr, 'data_'), 'elements_') if has is not False else ()

    def sum_(flag):
        def mk(st):
            c = body(st, None)
            return ('all', '+', c, flag) if c else num(0)
        return mk

    def leaf(flag, null):
        def f(st, v):
            w = sum_(flag)(st)
            if w != num(0) and null:
                w = combine('+', w, num(1))
            got = canon(st, v)
            if got == w:
                return None if w != num(0) or absent(st) else (
                    False, 'answers 0 on a path that has not found the enumerations absent or empty')
            if got is None:
                return None, 'answers ' + fmt(v)[:90]
            if settle(st, got) == settle(st, w):
                return None
            return False, 'answers %s, not %s' % (show(got), show(w))
        return f

    def absent(st):
        for a, d in st.facts.items():
            if mentions(a, it) and (a[0] == 'eq' and (not d if any(x[0] == 'kind' for x in a[1:3]) else d) or
                                    a[0] == 'T' and not d):
                return True
        return False

    def level(null):
        yes = leaf(TRUE, null)
        return If(inh, yes, If(pred('hasFixedTypeAttr'), yes, leaf(FALSE, null)))
    return If(pred('hasNullableTypeAttr'), level(True), level(False))

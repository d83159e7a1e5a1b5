"""U01: UTF-8: every octet sequence is decoded as the standard says, within its bounds; encoding is the inverse."""
import refr
import bits
from absint import Interp, Budget, C, fmt, mk_eq, read, project, mentions
from linrel import Lin, ring
from front import loc

RULE = 'utf-8'
WITHIN = 'within-bounds'
NS = 'drafter::utils::utf8::'
DECODE, ENCODE = NS + 'decode_one', NS + 'encode'
LEN = [1] * 192 + [2] * 32 + [3] * 16 + [4] * 16


def check(R, P):
    R.rule('Decoding, for every first byte, every following byte and every number of bytes left: no bytes left answer '
           '(0xFFFFFFFF, end); otherwise the sequence is as long as its first byte says, the position answered lies behind '
           'it (or at the end where it is cut), and the code point is exactly the bits the standard puts together from the '
           'bytes; it is U+FFFD where the sequence is cut, a byte does not continue it, the first byte is none, it is longer '
           'than needed, a surrogate or past U+10FFFF. Decided by tracking which input bit each bit of the answer comes '
           'from, splitting on input bits only where a condition depends on them.')
    R.rule('Encoding, for every code point: the octets written are the shortest sequence of the standard, in order.')
    R.rule('No octet is read at or behind the end. The iterator holds what decoding answers at its position and goes on at '
           'the position it answered; two are equal exactly when both agree.')
    for f in P.named(DECODE):
        if f.get('body') is not None:
            decoding(R, P, f)
    for f in P.named(ENCODE):
        if f.get('body') is not None:
            encoding(R, P, f)
    iterator(R, P)
    R.floor('decoding', 1)
    R.floor('encoding', 1)
    R.floor('iterator', 5)


def numbers(P):
    """constants with a name"""
    out = {}
    for u, g in P.gvars.items():
        e = g.get('e')
        while isinstance(e, dict) and 'cv' not in e and 'e' in e:
            e = e['e']
        if g.get('cx') and isinstance(e, dict) and 'cv' in e:
            out[('gv', u)] = bits.const(int(e['cv']))
    return out


# ---- decoding

def decoding(R, P, f):
    R.seen(f)
    T, at = ('obj', 'text'), ('obj', 'at')
    n = ('size', T)
    reads = []
    I = Interp(P, hooks=dict(refr.hooks(), bytes=True), max_states=800)

    def elem(s, base, ix, node, fr):
        if base != T:
            return
        L = Lin(s.facts, [(at, n)], unsigned=lambda t: t[0] in ('fld', 'elem', 'hv', 'obj'))
        if not L.bad() and not L.lt(ix, n):
            reads.append((loc(fr.fn, node), fmt(ix), set(ring(ix)[0]) <= {at}))
    I.on_elem = elem
    I.on_deref = lambda s, v, node, fr: v[0] == 'it' and elem(s, v[1], v[2], node, fr)
    try:
        outs = I.run(f, ('obj', 'this'), [('it', T, at), ('it', T, n)])
    except Budget:
        R.undecided(loc(f), '%s: too many paths' % f['q'])
        return
    ok = True
    for where, ix, clear in reads:
        ok = False
        if clear:
            R.violate(where, WITHIN, '%s: the octet at %s is read without knowing it is there' % (f['q'], ix), 'decode|read %s' % ix)
        else:
            R.undecided(where, '%s: whether the octet at %s is there' % (f['q'], ix))
    octets = {x for o in outs for a in list(o.st.facts) + [I.val(o.st, o.val) or C(0)] for x in inner(a) if x[0] == 'elem' and x[1] == T}
    for avail in range(0, 9):
        bad, unknown = [], False
        # positions are numbers relative to the first octet
        inputs = dict(numbers(P))
        inputs[at] = bits.const(0)
        inputs[n] = bits.const(avail)
        for x in octets:
            k = ring(x[2])
            if set(k[0]) != {at} or k[0][at] != 1:
                continue
            inputs[x] = bits.byte('b%d' % k[1], True)
        inputs[('b',)] = bits.byte('b0', False)
        paths = [([(rel(a), v) for a, v in o.st.facts.items()], o) for o in outs]
        for env, B, got in bits.cases(paths, inputs, lambda B: want(B, avail)):
            if B is None or got[1] is None:
                unknown = True
                continue
            key, live = got
            if len(live) != 1:
                unknown = True
                continue
            o = live[0][1]
            if o.kind == 'throw':
                bad.append((env, 'raises'))
                continue
            v = I.val(o.st, o.val)
            cp, pos = project(v, ('fld', 'first')), project(v, ('fld', 'second'))
            if cp is None or pos is None or rel(pos)[0] in ('fld', 'call'):
                unknown = True
                continue
            p = bits.value(B.ev(rel(pos)))
            if p is None:
                unknown = True
            elif p != key[2]:
                bad.append((env, 'goes on %d octets further' % p))
            have = B.ev(cp)[:32]
            if None in have:
                unknown = True
            elif have != B.sub(key[1])[:32]:
                x = bits.value(have + [0] * 32)
                bad.append((env, 'answers %s' % ('U+%04X' % x if x is not None else 'other bits')))
        if bad:
            ok = False
            env, text = bad[0]
            R.violate(loc(f), RULE, '%s: the octets %s of %d left %s' % (f['q'], show(env), avail, text), 'decode|%d|%s' % (avail, text))
        elif unknown:
            ok = False
            R.undecided(loc(f), '%s: with %d octets left' % (f['q'], avail))
    R.ob('decoding', '%s %s' % (loc(f), f['q']), ok)


def inner(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from inner(x)


def rel(t):
    """positions as numbers"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'it' and len(t) == 3:
        return rel(t[2])
    if t[0] in ('elem', 'gv'):
        return t
    return tuple(rel(x) if isinstance(x, tuple) else x for x in t)


def want(B, avail):
    """(key, code point bits, position) the standard gives, or the bit it depends on"""
    repl = bits.const(0xFFFD)
    if avail == 0:
        return ('ok', bits.const(0xFFFFFFFF), 0)
    b0 = [B.env.get(('b0', i)) for i in range(8)]
    for i in (7, 6, 5, 4, 3):
        if b0[i] is None:
            return ('bit', ('b0', i))
        if i == 7 and not b0[7]:
            return ('ok', [('b0', j) for j in range(7)] + [0] * 57, 1)
        if i == 6 and not b0[6]:
            return ('ok', repl, 1)
        if i < 6 and not b0[i]:
            break
    first = sum((b0[i] or 0) << i for i in range(8))
    n = LEN[first]
    if avail < n:
        return ('ok', repl, avail)
    if first >= 0xF8:
        return ('ok', repl, n)
    lead = {2: 5, 3: 4, 4: 3}[n]
    for i in range(1, n):
        for j, w in ((7, 1), (6, 0)):
            x = B.env.get(('b%d' % i, j))
            if x is None:
                return ('bit', ('b%d' % i, j))
            if x != w:
                return ('ok', repl, n)
    cp = []
    for i in reversed(range(1, n)):
        cp += [('b%d' % i, j) for j in range(6)]
    cp += [('b0', j) for j in range(lead)]
    cp += [0] * (64 - len(cp))
    num = bits.Bits({('cp',): cp}, B.env)
    for lo, hi in (({2: 0x80, 3: 0x800, 4: 0x10000}[n], None), (0xD800, 0xDFFF), (None, 0x110000)):
        if lo and hi:
            x, y = num.holds(('lt', ('cp',), C(lo))), num.holds(('lt', ('cp',), C(hi + 1)))
            if x is True or y is False:
                continue
            for z in (x, y):
                if not isinstance(z, bool):
                    return ('bit', z)
            return ('ok', repl, n)
        x = num.holds(('lt', ('cp',), C(lo or hi)))
        if not isinstance(x, bool):
            return ('bit', x)
        if x is (lo is not None):
            return ('ok', repl, n)
    return ('ok', cp, n)


def show(env):
    out = []
    for i in range(4):
        if any(k[0] == 'b%d' % i for k in env):
            out.append(''.join(str(env.get(('b%d' % i, j), 'x')) for j in reversed(range(8))))
    return ' '.join(out) or '(any)'


# ---- encoding

def encoding(R, P, f):
    R.seen(f)
    c = ('obj', 'c')
    I = Interp(P, hooks=dict(refr.hooks(), bytes=True), max_states=400)
    try:
        outs = I.run(f, ('obj', 'this'), [c, ('obj', 'out')])
    except Budget:
        R.undecided(loc(f), '%s: too many paths' % f['q'])
        return
    inputs = dict(numbers(P))
    inputs[c] = [('c', i) for i in range(32)] + [0] * 32
    bad, unknown = [], False
    paths = [(list(o.st.facts.items()), o) for o in outs]
    for env, B, got in bits.cases(paths, inputs, octets_of):
        if B is None or got[1] is None or len(got[1]) != 1:
            unknown = True
            continue
        key, o = got[0], got[1][0][1]
        if key[1] is None:            # no code point
            continue
        ws = written(I, o)
        if ws is None:
            unknown = True
            continue
        have = [B.ev(w)[:8] for w in ws]
        if o.kind == 'throw' or any(None in x for x in have):
            unknown = True
        elif have != [B.sub(x + [0] * 56)[:8] for x in key[1]]:
            lo = sum(env.get(('c', i), 0) << i for i in range(32))
            bad.append('the octets of code points from U+%04X on are %s' % (lo, ' '.join(
                ''.join(str(b) if b in (0, 1) else 'x' for b in reversed(x)) for x in have) or 'none'))
    for b in bad[:1]:
        R.violate(loc(f), RULE, '%s: %s' % (f['q'], b), 'encode|%s' % b)
    if unknown and not bad:
        R.undecided(loc(f), '%s: what is written' % f['q'])
    R.ob('encoding', '%s %s' % (loc(f), f['q']), not bad and not unknown)


def octets_of(B):
    c = lambda i: ('c', i)
    num = bits.Bits({('cp',): [c(i) for i in range(32)] + [0] * 32}, B.env)
    for lim, lead, n in ((0x80, 0, 1), (0x800, 0xC0, 2), (0x10000, 0xE0, 3), (0x110000, 0xF0, 4)):
        x = num.holds(('lt', ('cp',), C(lim)))
        if not isinstance(x, bool):
            return ('bit', x)
        if x:
            if n == 1:
                return ('ok', [[c(i) for i in range(7)] + [0]])
            top = 6 * (n - 1)
            w = {2: 5, 3: 4, 4: 3}[n]
            out = [[c(top + i) for i in range(w)] + [(lead >> i) & 1 for i in range(w, 8)]]
            for k in reversed(range(n - 1)):
                out.append([c(6 * k + i) for i in range(6)] + [0, 1])
            return ('ok', out)
    return ('ok', None)


def written(I, o):
    """values assigned through the iterator, in order"""
    out = []
    for e in o.st.ev:
        if e[0] == 'loop':
            return None
        if e[0] == 'call' and e[1].split('<')[0] == 'std::ostream_iterator' and e[1].endswith('::operator='):
            v = e[3][0] if len(e[3]) == 1 else None
            if v is None:
                return None
            if v[0] == 'addr':
                v = read(o.st, v[1])
            out.append(v)
        elif e[0] == 'call' and not e[1].startswith('std::ostream_iterator'):
            return None
        elif e[0] == 'store' and not local(e[1]):
            out.append(e[2])
    return out


def local(l):
    return l[0] in ('lv', 'obj') or l[0] in ('fld',) and local(l[1])


# ---- the iterator

def iterator(R, P):
    me = ('obj', 'this')
    state, end = ('fld', me, 'cp_and_next_'), ('fld', me, 'e_')
    for f in P.fns.values():
        if not f['b'].startswith(NS) or f.get('body') is None or f['b'] in (DECODE, ENCODE):
            continue
        cls = f.get('c') or ''
        n = f['n'] if f['n'] != 'input_iterator' else '(ctor)'
        if 'input_iterator' not in f['q'] and not (n in ('operator==', 'operator!=') and
                                                    'input_iterator' in ''.join(P.ptypes(f))):
            continue
        if n not in ('(ctor)', 'operator++', 'operator*', 'operator==', 'operator!='):
            continue
        if n == '(ctor)' and (f.get('dft') or f.get('ck') in ('copy', 'move')):
            continue
        R.seen(f)
        I = Interp(P, hooks=refr.hooks(), max_states=300, noinline={DECODE})
        try:
            outs = I.run(f, me)
        except Budget:
            R.undecided(loc(f), '%s: too many paths' % f['q'])
            continue
        res = [step(I, P, f, o, me, state, end) for o in outs]
        for good, text in res:
            if good is False:
                R.violate(loc(f), RULE, '%s: %s' % (f['q'][:80], text), 'iterator|%s|%s' % (n, text))
            elif good is None:
                R.undecided(loc(f), '%s: %s' % (f['q'][:80], text))
        R.ob('iterator', '%s %s' % (loc(f), n), all(g for g, _ in res))


def dec(a, b):
    return ('call', DECODE, None, a, b)


def plain(t):
    """without the marks of how a value was handed on"""
    if isinstance(t, tuple) and t:
        if t[0] == 'V' and len(t) == 2:
            return plain(t[1])
        return tuple(plain(x) for x in t)
    return t


def step(I, P, f, o, me, state, end):
    n = f['n'] if f['n'] != 'input_iterator' else '(ctor)'
    if o.kind == 'throw':
        return None, 'raises'
    now = plain(read(o.st, state))
    v = plain(I.val(o.st, o.val)) if o.val is not None else None
    go = dec(('fld', state, 'second'), end)
    if n == '(ctor)':
        e = plain(read(o.st, end))
        if now[0] != 'call' or now[1] != DECODE or len(now) != 5:
            return None, 'what it holds is not understood'
        a, b = now[3], now[4]
        if e != b:
            return False, 'the end kept is not the one decoded to'
        ps = [('obj', p['n']) for p in f['ps']]
        if len(ps) == 2:
            return ((a, b) == (plain(read(o.st, ps[0])), plain(read(o.st, ps[1]))) or (a, b) == tuple(ps)), 'does not decode at the position given'
        ok = a[0] == 'it' and b[0] == 'it' and a[1:] == (ps[0], C(0)) and b[1:] == (ps[0], ('size', ps[0]))
        return (True if ok else False if a[0] == b[0] == 'it' else None), 'does not decode at the begin of the container'
    if n == 'operator++':
        if now != go:
            return (False if now == state or now[0] == 'call' and now[1] == DECODE else None), 'does not go on at the next position'
        if f['ps']:
            return (True if has_old(v, state) else None), 'does not answer the iterator as it was'
        return True, ''
    if now != state:
        return False, 'is changed'
    if n == 'operator*':
        return (v == ('fld', state, 'first') or v == ('addr', ('fld', state, 'first'))), 'does not answer the code point'
    l, r = [('fld', ('obj', p['n']), 'cp_and_next_') for p in f['ps']]
    fst, snd = [mk_eq(('fld', l, k), ('fld', r, k)) for k in ('first', 'second')]
    for x in (True, False):
        for y in (True, False):
            facts = {fst: x, snd: y, mk_eq(l, r): x and y}
            live = [holds(a, facts) for a, v in o.st.facts.items() if holds(a, facts) is not v]
            if False in live or True in live:
                continue              # does not come here
            got = holds(v, facts)
            if live or got is None:
                return None, 'what it compares is not understood: %s' % fmt(v)[:60]
            if got is not ((x and y) is (n == 'operator==')):
                return False, 'two that %s in the code point and %s in the position are %s' % (
                    'agree' if x else 'differ', 'agree' if y else 'differ', 'equal' if (n == 'operator==') is got else 'not equal')
    return True, ''


def holds(t, facts):
    t = plain(t)
    if t in facts:
        return facts[t]
    if t[0] == 'c':
        return bool(t[1])
    if t[0] in ('not', 'T'):
        x = holds(t[1], facts)
        return x if x is None or t[0] == 'T' else not x
    return None


def has_old(v, state):
    return v is not None and (mentions(v, state) or v[0] in ('rec', 'fresh', 'copy') or v == ('obj', 'this'))

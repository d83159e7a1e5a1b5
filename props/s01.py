"""S01: source positions: conversions stay within the source and answer the characters and lines the bytes are in."""
import refr
from absint import Interp, Budget, C, TRUE, FALSE, NULL, EMPTY, read, fmt, decide, assume, mk_eq, mk_lt, size_of, mentions, project
from linrel import Lin, ring, req, plus
from front import loc

RULE = 'source-positions'
WITHIN = 'within-bounds'
LEN = [1] * 192 + [2] * 32 + [3] * 16 + [4] * 16


def check(R, P):
    R.rule('Bounds: every subscript, dereferenced iterator and substring position reached from the conversions is shown '
           'to lie inside its container by the linear relations its path establishes (resizes, guards, bounds of searches '
           'and of masked bits).')
    R.rule('Characters of a byte range (location l, length k) in a source of n bytes with the byte-to-character index X: '
           'no source: (0,0); l past the end: one past the last character, nothing; otherwise location X[l] and length '
           'X[l+k]-X[l], with the number of all characters where l+k reaches the end. The index gives each byte of a '
           'character the number of characters before it, and a character has as many bytes as its first byte says.')
    R.rule('A set is converted range by range, in order, none added or left out. Mapping a set onto the source answers the '
           'concatenated parts; a last range that ends one byte past the source (a newline the Markdown parser added) is cut, '
           'anything further answers nothing.')
    R.rule('Appending a set merges its first range into the last one exactly when the two touch and keeps all others. '
           'Lines start at 0 and after each newline; a position is on the last line that starts at or before it.')
    R.bounds = {}
    sets(R, P)
    index(R, P)
    mapped(R, P)
    appended(R, P)
    lines(R, P)
    starts(R, P)
    for (where, what), v in sorted(R.bounds.items()):
        ok = all(x is True for x, _ in v)
        for x, t in v:
            if x is False:
                R.violate(where, WITHIN, '%s: %s' % (what, t), 'bounds|%s' % what)
                break
        else:
            for x, t in v:
                if x is None:
                    R.undecided(where, '%s: %s' % (what, t))
                    break
        R.ob('access within its container', '%s %s' % (where, what), ok)
    R.floor('access within its container', 12)
    R.floor('conversion of ranges', 3)
    R.floor('character index', 1)
    R.floor('mapping onto the source', 1)
    R.floor('appending of ranges', 1)
    R.floor('line of a position', 1)
    R.floor('line starts', 1)


# ---- following

def run(R, P, f, st=None, args=None, this=('obj', 'this')):
    R.seen(f)
    I = Interp(P, hooks=dict(refr.hooks(), bytes=True), max_states=1500)

    def held(s, base, lo, pos, node, fr, strict):
        L = lin(s)
        if L.bad() or dead(s):
            return
        n = extent(s, base)
        good = L.lt(pos, n) if strict else L.le(pos, n)
        key = (loc(fr.fn, node), '%s: %s' % (fr.fn['q'], fmt(base)[:40]))
        if not good:
            good = False if all(fair(s, a) for a in list(ring(pos)[0]) + list(ring(n)[0])) else None
        R.bounds.setdefault(key, []).append((good, 'position %s of %s is not kept within its %s' % (
            fmt(pos)[:60], fmt(base)[:30], 'elements' if strict else 'length')))

    def elem(s, base, ix, node, fr):
        t = read(s, base)
        text = t[0] in ('s', 'cat', 'substr') or is_text(P, fr, node, base)
        held(s, base, None, ix, node, fr, not text)

    def deref(s, v, node, fr):
        if v[0] == 'it' and node.get('k') != 'idx':
            if v[1][0] in ('obj', 'lv', 'fld', 'elem') and not is_text(P, fr, node, v[1]):
                held(s, v[1], None, v[2], node, fr, True)
            elif v[1][0] in ('obj', 'lv', 'fld', 'elem'):
                held(s, v[1], None, v[2], node, fr, False)

    def pos(s, base, at_, node, fr):
        held(s, base, None, at_, node, fr, False)
    I.on_elem, I.on_deref, I.on_pos = elem, deref, pos
    try:
        return I, I.run(f, this, args, st)
    except Budget:
        R.undecided(loc(f), '%s: too many paths' % f['q'])
        return I, None


def is_text(P, fr, node, base):
    """the container is a text, whose terminator may be read"""
    for e in (node.get('b'), node.get('ob'), node.get('e')):
        if isinstance(e, dict) and e.get('t') is not None:
            s = P.ty(e['t'])['s']
            if 'char *' in s or 'basic_string' in s and 'iterator' not in s:
                return True
    return False


def lin(s, more=(), axioms=()):
    return Lin(s.facts, axioms, more)


def dead(s):
    """a text never has no characters to point to"""
    return any(a[0] == 'T' and a[1][0] == 'it' and v is False for a, v in s.facts.items())


def extent(s, base):
    v = read(s, base)
    while v[0] == 'rec':
        v = v[1]
    if v[0] == 'resized':
        return v[2]
    return size_of(v)


def fair(s, a):
    """a number the facts are all there is to know of: an input, a count, or a bit pattern"""
    if a[0] in ('ix',):
        return True
    if a[0] == 'size':
        return a[1][0] in ('obj', 'elem', 'fld')
    if a[0] == 'hv':
        return any(mentions(k, a) for k in s.facts if k[0] == 'lt')
    if a[0] in ('fld', 'elem'):
        return not any(x[0] in ('hv', 'u', 'fresh') for x in inner(a))
    if a[0] == 'op':
        return a[1] == '&' or all(fair(s, x) for x in a[2:] if x[0] != 'c')
    if a[0] == 'call':
        return a[1] in ('std::upper_bound', 'std::lower_bound')
    return False


def inner(t):
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        yield t
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from inner(x)
    elif isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from inner(x)


def name_of(f, i):
    return ('obj', f['ps'][i]['n'])


def tell(R, f, kind, res, label=''):
    ok = True
    for good, text in res:
        if good is False:
            ok = False
            R.violate(loc(f), RULE, '%s: %s' % (f['q'], text), '%s|%s' % (f['q'], text[:80]))
        elif good is None:
            ok = None if ok else ok
            R.undecided(loc(f), '%s: %s' % (f['q'], text))
    R.ob(kind, '%s %s%s' % (loc(f), f['q'], label), ok is True)


# ---- ranges of bytes to ranges of characters

def index_form(s, L, t, X, n, l, k):
    """ring form with the entries of the index named by the position they are known to be at"""
    cands = (('0', C(0)), ('n-1', ('add', n, -1)), ('l', l), ('l+k', ('sum', l, k)))

    def canon(a):
        if a[0] == 'elem' and a[1] == X:
            for name, c in cands:
                if req(ring(a[2]), ring(c)) or L.eq(a[2], c):
                    return ('X', name)
        return a
    d, c = ring(t, canon)
    d = {a: v for a, v in d.items() if a != ('X', '0')}
    return d, c


def conv_index(s, v, X, l, k, n):
    """disagreements of the characters range v with the bytes (l, k) of a source whose index is X"""
    x = lambda name: ({('X', name): 1}, 0)
    one = ({}, 1)
    end = plus(x('n-1'), one)
    got = [project(v, ('fld', 'location')), project(v, ('fld', 'length'))]
    cases = [('there is no source', [(('T', n), False)], ({}, 0), ({}, 0)),
             ('the range starts past the end', [(('T', n), True), (('lt', l, n), False)], end, ({}, 0)),
             ('the range is empty', [(('T', n), True), (('lt', l, n), True), (('T', k), False)], x('l'), ({}, 0)),
             ('the range reaches the end', [(('T', n), True), (('lt', l, n), True), (('T', k), True), (('lt', ('sum', l, k), n), False)],
              x('l'), plus(end, x('l'), -1)),
             ('the range lies inside', [(('T', n), True), (('lt', l, n), True), (('T', k), True), (('lt', ('sum', l, k), n), True)],
              x('l'), plus(x('l+k'), x('l'), -1))]
    out = []
    for text, facts, wl, wk in cases:
        for zero in (True, False):
            L = lin(s, facts + [(('T', l), not zero)])
            if L.bad():
                continue
            for g, w, part in ((got[0], wl, 'location'), (got[1], wk, 'length')):
                if g is None:
                    out.append((None, 'the %s is not known' % part))
                    continue
                sub = (lambda f: ({a: c for a, c in f[0].items() if not (zero and a == ('X', 'l'))}, f[1]))
                have, want = sub(index_form(s, L, g, X, n, l, k)), sub(w)
                # where the range starts at the last byte, or reaches it
                if L.eq(l, ('add', n, -1)):
                    have, want = [({(('X', 'n-1') if a == ('X', 'l') else a): 0 for a in f[0]} and
                                   fold(f, ('X', 'l'), ('X', 'n-1'))) for f in (have, want)]
                if not req(have, want):
                    known = all(a[0] == 'X' or fair(s, a) for a in have[0])
                    out.append((False if known else None, 'the %s of %s is %s when %s' % (part, fmt(l)[:30], fmt(g)[:70], text)))
    return out


def fold(f, a, b):
    d = dict(f[0])
    if a in d:
        c = d.pop(a)
        d[b] = d.get(b, 0) + c
        if not d[b]:
            del d[b]
    return d, f[1]


def loops(ev):
    for e in ev:
        if e[0] == 'loop':
            yield e[1]
            for p in e[1]['paths']:
                yield from loops(p[2])


def conv_text(s, v, ev, B, l, k, n):
    """the same, counted over the text itself"""
    got = [project(v, ('fld', 'location')), project(v, ('fld', 'length'))]
    cases = [('there is no source', [(('T', n), False)], None, None),
             ('the range starts past the end', [(('T', n), True), (('lt', n, l), True)], (C(0), n), None),
             ('the range ends past the end', [(('T', n), True), (('lt', n, l), False), (('lt', n, ('sum', l, k)), True)],
              (C(0), l), (l, ('op', '-', n, l))),
             ('the range lies inside', [(('T', n), True), (('lt', n, l), False), (('lt', n, ('sum', l, k)), False)], (C(0), l), (l, k))]
    out = []
    for text, facts, wl, wk in cases:
        L = lin(s, facts)
        if L.bad():
            continue
        for g, w, part in ((got[0], wl, 'location'), (got[1], wk, 'length')):
            r = counted(s, L, g, w, ev, B)
            if r is not None:
                out.append((r[0], 'the %s %s when %s' % (part, r[1], text)))
    return out


def counted(s, L, g, want, ev, B):
    """g is the number of characters that begin in the `want` = (start, bytes) of the text B"""
    if g is None:
        return None, 'is not known'
    if g == C(0):
        if want is None or L.eq(want[1], C(0)):
            return None
        return (False, 'is nothing')
    if g[0] != 'ix':
        raw = ring(g)[0]
        if not raw and want is not None and not (g == C(1) and L.eq(want[1], C(1))):
            return False, 'is %s' % fmt(g)[:60]
        if g[0] == 'neg' and g[1][0] == 'ix':
            return False, 'counts downwards'
        return (False if raw and all(a[0] in ('fld', 'elem') and a[-1] in ('location', 'length') or a == size_of(B) for a in raw) else None,
                'is %s' % fmt(g)[:60])
    if want is None:
        return False, 'is counted'
    info = next((i for i in loops(ev) if i['ix'] == g), None)
    if info is None:
        return None, 'is %s' % fmt(g)[:60]
    r = char_walk(info, B)
    if r[0] is not True:
        return r[0], r[1]
    _, start, limit = r
    if want[1] is not None and L.eq(want[1], C(0)) and not L.eq(limit, C(0)):
        return False, 'is counted over %s bytes' % fmt(limit)[:40]
    if not L.eq(start, want[0]):
        return (False if not any(x[0] in ('hv', 'u') for x in inner(start)) else None), 'is counted from %s on' % fmt(start)[:40]
    if not L.eq(limit, want[1]):
        return (False if not any(x[0] in ('hv', 'u') for x in inner(limit)) else None), 'is counted over %s bytes' % fmt(limit)[:40]
    return None


def char_walk(info, B):
    """(True, start, limit) of a loop that steps through the characters of B, one a round"""
    if info['exits'] or any(p[0] not in ('norm', 'cont') for p in info['paths']):
        return None, 'is counted by a loop with further exits'
    ends = info['ends']
    if not ends:
        return None, 'is counted by a loop that is not understood'
    # the position: a local the rounds change, compared with the limit
    for l in info['changed']:
        h = ('hv', info['ix'][1], l, None)
        lims = [a[2] for facts, _ in ends for a, v in facts.items() if a[0] == 'lt' and v and a[1] == h]
        if len(lims) < len(ends):
            continue
        lim = lims[0]
        if any(x != lim for x in lims):
            return None, 'is counted up to different limits'
        if read(info['prestore'], l) != C(0):
            first = read(info['prestore'], l)
        else:
            first = C(0)
        start = None
        for byte in {x for facts, s in ends for x in inner(read(s, l)) if x[0] == 'elem' and x[1] == B} | \
                {x for facts, s in ends for a in facts for x in inner(a) if x[0] == 'elem' and x[1] == B and mentions(x, h)}:
            f = plus(ring(byte[2]), ring(h), -1)
            if any(a == h for a in f[0]):
                return None, 'is counted over other bytes'
            st = unring(f)
            if start is not None and st != start:
                return None, 'is counted over several bytes at once'
            start = st
            bad = table(ends, l, h, byte)
            if bad is not None:
                return (bad[0], bad[1])
        if start is None:
            return False, 'is counted in steps that do not look at the text'
        if first != C(0):
            return None, 'is counted from a position of its own'
        # the text may be walked with the position counted from its own start
        return True, start, lim
    return None, 'is counted by a loop that is not understood'


def unring(f):
    t = None
    for a, k in sorted(f[0].items(), key=repr):
        for _ in range(abs(k)):
            x = a if k > 0 else ('neg', a)
            t = x if t is None else ('sum', t, x)
    if t is None:
        return C(f[1])
    return ('add', t, f[1]) if f[1] else t


def table(ends, l, h, byte):
    """the step of a round for each of the 256 first bytes"""
    wrong, unknown = [], False
    for b in range(256):
        for signed in (True, False):
            env = {byte: b - 256 if signed and b > 127 else b}
            got = []
            for facts, s in ends:
                live = True
                for a, v in facts.items():
                    if mentions(a, byte):
                        x = calc(a, env)
                        if x is None:
                            unknown = True
                        elif bool(x) != v:
                            live = False
                if live:
                    d = plus(ring(read(s, l)), ring(h), -1)
                    x = total(d, env)
                    got.append(x)
            if None in got or not got:
                unknown = True
            elif any(x != LEN[b] for x in got):
                wrong.append((b, got[0]))
                break
            if b < 128:
                break
    if unknown:
        return None, 'is counted in steps that are not understood'
    if wrong:
        return False, 'counts a first byte 0x%02X as %d bytes' % wrong[0]
    return None


def total(f, env):
    r = f[1]
    for a, k in f[0].items():
        x = calc(a, env)
        if x is None:
            return None
        r += k * x
    return r


def calc(t, env):
    """value of an expression over the byte, as the compiler computes it"""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'c':
        return t[1]
    if k in ('add', 'sum'):
        a, b = calc(t[1], env), t[2] if isinstance(t[2], int) else calc(t[2], env)
        return None if a is None or b is None else a + b
    if k == 'neg':
        a = calc(t[1], env)
        return None if a is None else -a
    if k == 'not':
        a = calc(t[1], env)
        return None if a is None else int(not a)
    if k == 'T':
        return calc(t[1], env)
    if k in ('lt', 'eq'):
        a, b = calc(t[1], env), calc(t[2], env)
        return None if a is None or b is None else int(a < b if k == 'lt' else a == b)
    if k == 'sgn' and t[1] == 8:
        a = calc(t[3], env)
        return None if a is None else a % 256 if t[2] else (a + 128) % 256 - 128
    if k == 'op':
        a, b = calc(t[2], env), calc(t[3], env)
        if a is None or b is None:
            return None
        try:
            return {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b,
                    '>>': a >> b if b >= 0 else None, '<<': a << b if 0 <= b < 64 else None}[t[1]]
        except (KeyError, ValueError):
            return None
    return None


def sets(R, P):
    for f in P.named('mdp::BytesRangeSetToCharactersRangeSet'):
        if f.get('body') is None:
            continue
        S, X = name_of(f, 0), name_of(f, 1)
        text = 'basic_string' in P.ty(f['ps'][1]['t'])['s']
        I, outs = run(R, P, f)
        if outs is None:
            continue
        res = []
        n = size_of(X)
        for o in outs:
            res += whole_set(I, o, S, lambda s, v, ev, el: (conv_text if text else conv_index_)(
                s, v, ev, X, ('fld', el, 'location'), ('fld', el, 'length'), n))
        tell(R, f, 'conversion of ranges', res, ' over the text' if text else ' by the index')
    for f in P.named('mdp::BytesRangeSetToConsecutiveCharactersRangeSet'):
        if f.get('body') is None:
            continue
        S, X = name_of(f, 0), name_of(f, 1)
        I, outs = run(R, P, f)
        if outs is None:
            continue
        res, n = [], size_of(X)
        first, last = ('elem', S, C(0)), ('elem', S, ('add', size_of(S), -1))
        l = ('fld', first, 'location')
        k = ('op', '-', ('sum', ('fld', last, 'location'), ('fld', last, 'length')), l)
        bad = False
        for o in outs:
            v = I.val(o.st, o.val)
            if v == EMPTY:
                if decide(o.st, ('T', size_of(S))) is not False:
                    bad = True
                continue
            if v is None or v[0] != 'push' or v[1] != EMPTY:
                res.append((None, 'the answer is not understood'))
                continue
            r = conv_index_(o.st, v[2], o.st.ev, X, l, k, n)
            bad = bad or any(x[0] is False for x in r)
            res += [x for x in r if x[0] is None]
        if bad:
            R.violate(loc(f), RULE, '%s: the answer is not the characters from the first range to the end of the last' % f['q'],
                      'consecutive|%s' % f['q'])
        tell(R, f, 'conversion of ranges', res)


def conv_index_(s, v, ev, X, l, k, n):
    return conv_index(s, v, X, l, k, n)


def whole_set(I, o, S, conv):
    """each range of S in order has one entry, the one conv accepts"""
    v = I.val(o.st, o.val)
    if o.kind == 'throw':
        return [(None, 'raises')]
    if v == EMPTY:
        if decide(o.st, ('T', size_of(S))) is False:
            return []
        return [(False, 'answers nothing')]
    if v is None or v[0] != 'hv':
        return [(None, 'the answer is not understood')]
    info = next((i for i in loops(o.st.ev) if i['ix'] == ('ix', v[1])), None)
    if info is None or info['range'] is None:
        return [(None, 'the walk over the ranges is not understood')]
    _, cont, lo, hi = info['range'][:4]
    if cont != S or lo != C(0) or hi != size_of(S):
        return [(None, 'the walk is not over the ranges given')]
    if info['exits']:
        return [(False, 'leaves ranges out')]
    res = []
    if read(info['prestore'], v[2]) != EMPTY and info.get('alg') is None:
        res.append((None, 'the answer has entries from before'))
    el = ('elem', S, info['ix'])
    if info.get('alg') == 'transform':
        rounds = [(facts, ev, [val[1]]) for kind, facts, ev, val in info['paths'] if val is not None and val[0] == 'V']
    else:
        rounds = []
        for kind, facts, ev, val in info['paths']:
            if kind == 'throw':
                continue
            if kind not in ('norm', 'cont'):
                return [(False, 'leaves ranges out')]
            rounds.append((facts, ev, [e[2] for e in ev if e[0] == 'push' and e[1] == v[2]]))
    for facts, ev, added in rounds:
        s = o.st.copy()
        s.facts = facts
        if dead(s) or Lin(facts).bad():
            continue
        if len(added) != 1:
            res.append((False, 'a range has %d entries' % len(added)))
            continue
        res += conv(s, added[0], ev, el)
    return res


# ---- the index

def index(R, P):
    for f in P.named('mdp::BuildCharacterIndex'):
        if f.get('body') is None:
            continue
        X, B = name_of(f, 0), name_of(f, 1)
        I, outs = run(R, P, f)
        if outs is None:
            continue
        n = size_of(B)
        res = []
        for o in outs:
            res += built(o, X, B, n)
        tell(R, f, 'character index', res)


def built(o, X, B, n):
    v = read(o.st, X)
    while v[0] == 'rec':
        v = v[1]
    size = v[2] if v[0] == 'resized' else v[1] if v[0] == 'assigned' else None
    L = lin(o.st)
    if size is None:
        return [(None, 'the size of the index is not known')]
    if not L.eq(size, n):
        return [(False, 'the index has %s entries' % fmt(size)[:40])]
    outer = [e[1] for e in o.st.ev if e[0] == 'loop']
    if len(outer) != 1:
        if not outer and L.eq(n, C(0)):
            return []
        return [(None, 'not built by one loop over the source')]
    info = outer[0]
    if info['exits'] or any(p[0] not in ('norm', 'cont') for p in info['paths']):
        return [(None, 'the loop over the source has further exits')]
    # the position and the count of characters before it
    pos = None
    for l in info['changed']:
        h = ('hv', info['ix'][1], l, None)
        lims = {a[2] for facts, _ in info['ends'] for a, w in facts.items() if a[0] == 'lt' and w and a[1] == h}
        if len(lims) == 1:
            pos, lim = (l, h), lims.pop()
    if pos is None:
        return [(None, 'the position in the source is not understood')]
    l, h = pos
    res = []
    if read(info['prestore'], l) != C(0):
        res.append((False, 'the walk starts at %s' % fmt(read(info['prestore'], l))[:30]))
    if not L.eq(lim, n):
        res.append((False, 'the walk ends at %s' % fmt(lim)[:30]))
    for facts, s in info['ends']:
        ev = next(p[2] for p in info['paths'] if p[1] is facts)
        ins = [e[1] for e in ev if e[0] == 'loop']
        if len(ins) != 1:
            res.append((None, 'the bytes of a character are not written by one loop'))
            continue
        res += character(o, info, facts, s, ins[0], X, B, l, h, n)
    return res


def character(o, outer, facts, s, w, X, B, l, h, n):
    """one round writes the entries of one character and goes on behind it"""
    ix = w['ix']
    byte = ('elem', B, h)
    after = read(s, l)
    res = []
    # what is written where
    writes = [[(e[1], e[2]) for e in p[2] if e[0] == 'store' and e[1][0] == 'elem' and e[1][1] == X] for p in w['paths']]
    if any(len(x) != 1 for x in writes):
        return [(False, 'a byte has %d entries' % len(x)) for x in writes if len(x) != 1][:1]
    (where, what), = {x[0] for x in writes} if len({x[0] for x in writes}) == 1 else {(None, None)}
    if where is None:
        return [(None, 'the entries of a character differ')]
    # the number of characters before: one more each round, from 0 on
    if what != outer['ix']:
        cnt = [x for x in outer['ind'] if what == x[0]]
        res.append((False if what[0] in ('c', 'ix', 'hv', 'add', 'sum') or what == ('neg', outer['ix']) else None, 'a byte of a character is given %s' % fmt(what)[:40]))
    up = plus(ring(where[2]), ring(('sum', h, ix)), -1)
    if up[0] or up[1]:
        return res + [(False if set(up[0]) <= {h, ix} else None, 'the entry written is %s' % fmt(where[2])[:60])]
    moved = plus(ring(after), ring(h), -1)
    if moved != ({ix: 1}, 0):
        return res + [(None if any(a != ix for a in moved[0]) else False, 'goes on at %s after the entries of a character' % fmt(after)[:60])]
    # how many: as the first byte says, or to the end of the source
    ends = {}
    stop = [a for a, v in facts.items() if mentions(a, ix) and a[0] in ('lt', 'eq', 'T') and
            outer['prefacts'].get(a) != v]
    for b in range(256):
        for signed in (True, False) if b > 127 else (False,):
            env = {byte: b - 256 if signed else b}
            at_end = any(a[0] == 'lt' and facts[a] is False and req(ring(a[1]), ring(('sum', h, ix))) and a[2] == n for a in stop)
            if at_end:
                continue
            rounds = None
            for t in range(0, 9):
                ok = True
                known = 0
                for a in stop:
                    x = calc(a, dict(env, **{}) | {ix: t})
                    if x is None:
                        continue
                    known += 1
                    if bool(x) != facts[a]:
                        ok = False
                if ok and known:
                    rounds = t
                    break
            if rounds is None:
                return res + [(None, 'how many bytes a character has is not understood')]
            if rounds != LEN[b]:
                return res + [(False, 'a character that starts with 0x%02X is given %d bytes' % (b, rounds))]
    # each round but the last goes on only while bytes of the character are left
    for p in w['paths']:
        for b in (0x41, 0xC3, 0xE2, 0xF0):
            for t in range(LEN[b]):
                for a, v in p[1].items():
                    if mentions(a, ix) and w['prefacts'].get(a) != v:
                        x = calc(a, {byte: b, ix: t})
                        if x is not None and bool(x) != v:
                            return res + [(False, 'byte %d of a character of %d is not written' % (t, LEN[b]))]
    return res


# ---- mapping

def mapped(R, P):
    for f in P.named('mdp::MapBytesRangeSet'):
        if f.get('body') is None:
            continue
        S, B = name_of(f, 0), name_of(f, 1)
        I, outs = run(R, P, f)
        if outs is None:
            continue
        n = size_of(B)
        res = []
        for o in outs:
            res += parts_of(I, o, S, B, n)
        tell(R, f, 'mapping onto the source', res)


def parts_of(I, o, S, B, n):
    v = I.val(o.st, o.val)
    lp = [e[1] for e in o.st.ev if e[0] == 'loop']
    if not lp:
        if v == ('s', '') and (decide(o.st, ('T', n)) is False or decide(o.st, ('T', size_of(S))) is False):
            return []
        return [(None, 'not a walk over the ranges')]
    info = lp[0]
    if len(lp) != 1 or info['range'] is None:
        return [(None, 'not one walk over the ranges')]
    _, cont, lo, hi = info['range'][:4]
    if cont != S or lo != C(0) or hi != size_of(S):
        return [(None, 'the walk is not over the ranges given')]
    el = ('elem', S, info['ix'])
    l, k = ('fld', el, 'location'), ('fld', el, 'length')
    res = []
    for kind, facts, ev, val in info['paths']:
        s = o.st.copy()
        s.facts = facts
        if lin(s).bad():
            continue
        if kind == 'throw':
            continue
        parts = [e[2] for e in ev if e[0] in ('out', 'append') and e[2][0] != 'dec']
        over = [('a range inside the source', [(('lt', n, ('sum', l, k)), False)]),
                ('a range one byte over', [(('eq', ('sum', l, k), ('add', n, 1)), True), (('lt', n, l), False)]),
                ('a range that starts past the end', [(('lt', n, l), True)]),
                ('a range further over', [(('lt', ('add', n, 1), ('sum', l, k)), True)])]
        for text, more in over:
            L = lin(s, more)
            if L.bad():
                continue
            ends = kind not in ('norm', 'cont')
            if text == 'a range inside the source':
                good = not ends and len(parts) == 1 and part(L, parts[0], B, l, k)
                say = 'is not added as it is'
            elif text == 'a range one byte over':
                good = len(parts) == 1 and part(L, parts[0], B, l, ('op', '-', n, l))
                if good and ends and kind == 'ret':
                    good = val is not None and val[0] == 'V' and val[1][0] == 'strof'
                elif good and ends:
                    good = kind == 'brk'
                say = 'is not cut at the end'
            else:
                good = kind == 'ret' and val is not None and val[0] == 'V' and val[1] in (('s', ''), EMPTY)
                say = 'does not answer nothing'
            if not good:
                clear = all(x[0] == 'substr' for x in parts) and (val is None or val[0] == 'V' and val[1][0] in ('s', 'strof', 'empty', 'substr'))
                res.append((False if clear else None, '%s %s' % (text, say)))
    return res


def part(L, t, B, l, k):
    if t[0] != 'substr' or t[1] != B or not L.eq(t[2], l):
        return False
    left = ('op', '-', size_of(B), l)
    if len(t) == 4 and t[3] not in (C((1 << 64) - 1), C(-1)) and not L.le(left, t[3]):
        return L.eq(t[3], k)
    return L.eq(left, k)


# ---- append

def appended(R, P):
    seen = set()
    for f in P.fns.values():
        if not f['q'].startswith('mdp::RangeSet') or f['n'] != 'append' or f.get('body') is None:
            continue
        S = name_of(f, 0)
        me = ('obj', 'this')
        I, outs = run(R, P, f)
        if outs is None:
            continue
        res = []
        n, m = size_of(me), size_of(S)
        for o in outs:
            v = read(o.st, me)
            if any(e[0] == 'dtor' for e in o.st.ev) and False:
                continue
            last = ('elem', me, ('add', n, -1))
            first = ('elem', S, C(0))
            touch = ('eq',) + tuple(sorted((('fld', first, 'location'), ('sum',) + tuple(sorted(
                (('fld', last, 'location'), ('fld', last, 'length')), key=repr))), key=repr))
            for text, more in (('nothing is given', [(('T', m), False)]),
                               ('there is no range yet', [(('T', m), True), (('T', n), False)]),
                               ('the ranges do not touch', [(('T', m), True), (('T', n), True), (touch, False)]),
                               ('the ranges touch', [(('T', m), True), (('T', n), True), (touch, True)])):
                st = o.st.copy()
                bad = False
                for a, w in more:
                    if bad:
                        break
                    st2 = assume(st, a, w)
                    if st2 is None:
                        bad = True
                    else:
                        st = st2
                if bad or lin(st).bad():
                    continue
                ins = [w for e in o.st.ev for w in adds(e, me, n)]
                stores = [e for e in o.st.ev if e[0] == 'store' and e[1][0] == 'fld' and mentions(e[1], me)]
                good, say = effect(st, lin(st), text, ins, stores, me, S, n, m, last, first)
                if good is not True:
                    res.append((good, '%s when %s' % (say, text)))
        tell(R, f, 'appending of ranges', res)


def adds(e, me, n):
    """what an event adds to me; a loop that adds the elements of a container as their insertion"""
    if e[0] in ('insert', 'push', 'append'):
        return [e]
    if e[0] != 'loop':
        return []
    info = e[1]
    got = [[w for x in p[2] for w in adds(x, me, n)] for p in info['paths']]
    if not any(got):
        return []
    r = info['range']
    if r is not None and not info['exits'] and all(len(g) == 1 and g[0][0] == 'push' and g[0][1] == me and
                                                   g[0][2] == ('elem', r[1], info['ix']) for g in got):
        return [('insert', me, (('it', me, n), ('it', r[1], r[2]), ('it', r[1], r[3])))]
    return [('push',), ('push',)]


def effect(s, L, text, ins, stores, me, S, n, m, last, first):
    def rest(frm):
        """the ranges from frm on, in order, at the end"""
        if not ins:
            return L.le(m, frm), 'ranges are not added'
        if len(ins) != 1 or ins[0][0] != 'insert':
            return None, 'how ranges are added is not understood'
        e = ins[0]
        a = e[2]
        if len(a) != 3 or any(x[0] != 'it' for x in a):
            return None, 'how ranges are added is not understood'
        if a[0][1] != me or not L.eq(a[0][2], n):
            return False, 'ranges are not added at the end'
        if a[1][1] != S or a[2][1] != S or not L.eq(a[2][2], m) or not L.eq(a[1][2], frm):
            return False, 'the ranges added are from %s to %s' % (fmt(a[1][2])[:20], fmt(a[2][2])[:20])
        return True, ''
    if text == 'the ranges touch':
        if len(stores) != 1 or stores[0][1] != ('fld', last, 'length'):
            return (False if len(stores) < 2 else None), 'the last range does not grow'
        if not req(ring(stores[0][2]), ring(('sum', ('fld', last, 'length'), ('fld', first, 'length')))):
            return (None if any(x[0] == 'inserted' for x in inner(stores[0][2])) else False), \
                'the last range becomes %s long' % fmt(stores[0][2])[:50]
        return rest(C(1))
    if stores:
        return False, 'a range is changed'
    if text == 'nothing is given':
        return (True, '') if not ins else (rest(C(0))[0], 'something is added')
    return rest(C(0))


# ---- lines

def lines(R, P):
    for f in P.named('drafter::GetLineFromMap'):
        if f.get('body') is None:
            continue
        N, rg = name_of(f, 0), name_of(f, 1)
        I, outs = run(R, P, f)
        if outs is None:
            continue
        res = []
        for o in outs:
            res += position(I, o, N, rg)
        tell(R, f, 'line of a position', res)


def position(I, o, N, rg):
    if o.kind == 'throw':
        return [(None, 'raises')]
    v = I.val(o.st, o.val)
    n = size_of(N)
    l, k = ('fld', rg, 'location'), ('fld', rg, 'length')
    end = ('sum',) + tuple(sorted((l, k), key=repr))
    L = lin(o.st)
    if L.bad():
        return []
    part = {x: project(v, ('fld', x)) for x in ('fromLine', 'fromColumn', 'toLine', 'toColumn')}
    if any(x is None for x in part.values()):
        return [(None, 'the answer is not understood')]
    if decide(o.st, ('T', n)) is False:
        return [(False, '%s is %s without lines' % (x, fmt(y)[:30])) for x, y in part.items() if y != C(0)]

    def canon(a):
        """where a search of the lines ends, as the number of lines that start at or before a position"""
        if a[0] == 'elem' and a[1] == N:
            return ('elem', N, freeze(ring(a[2], canon)))
        if a[0] == 'call' and a[1] in ('std::upper_bound', 'std::lower_bound') and a[2] == N and a[3] == C(0) and a[4] == n and a[6] is None:
            p = ring(a[5])
            if a[1] == 'std::lower_bound':
                p = (p[0], p[1] - 1)
            return ('lines', freeze(p))
        return a

    def freeze(f):
        return (tuple(sorted(f[0].items(), key=repr)), f[1])

    def form(t):
        return ring(t, canon)
    last = ('elem', N, ('add', n, -1))
    U = ('call', 'std::upper_bound', N, C(0), n, l, None)
    B = ('call', 'std::lower_bound', N, C(0), n, end, None)
    res = []

    def hold(x, want, when):
        have = form(part[x])
        if req(have, form(want)):
            return
        odd = any(a[0] not in ('lines', 'elem', 'fld', 'size') for a in have[0])
        res.append((None if odd else False, '%s is %s%s' % (x, fmt(part[x])[:70], when)))
    zero = decide(o.st, ('T', U))
    if zero is not False:            # with lines that start at 0 there is always one at or before
        hold('fromLine', U, '')
        hold('fromColumn', ('sum', ('op', '-', l, ('elem', N, ('add', U, -1))), C(1)), '')
    over = ('lt', last, end)
    for w in (True, False):
        s = assume(o.st.copy(), over, w)
        if s is None or lin(s).bad():
            continue
        if w:
            hold('toLine', n, ' when the range ends past the lines')
            hold('toColumn', C(1), ' when the range ends past the lines')
        elif decide(s, ('T', B)) is False:
            if part['toLine'] == C(0) and zero is not False:
                res.append((False, 'toLine is 0 when the range ends at the start of the first line'))
        elif not (zero is False):
            if any(a[0] == 'eq' and x and set(a[1:]) == {B, n} for a, x in s.facts.items()):
                continue               # a line start at or behind the end was found before
            hold('toLine', B, '')
            hold('toColumn', ('op', '-', end, ('elem', N, ('add', B, -1))), '')
    return res


DECODE = 'drafter::utils::utf8::decode_one'


def starts(R, P):
    """line starts: 0, and one more than the characters walked over when the character is a newline"""
    for f in P.named('drafter::GetLinesEndIndex'):
        if f.get('body') is None:
            continue
        R.seen(f)
        T = name_of(f, 0)
        I = Interp(P, hooks=refr.hooks(), max_states=400, noinline={DECODE})
        try:
            outs = I.run(f)
        except Budget:
            R.undecided(loc(f), '%s: too many paths' % f['q'])
            continue
        res = []
        for o in outs:
            res += found(I, o, T)
        tell(R, f, 'line starts', res)


def decoded(a, T):
    return ('call', DECODE, None, a, ('it', T, size_of(T)))


def found(I, o, T):
    if o.kind == 'throw':
        return [(None, 'raises')]
    v = I.val(o.st, o.val)
    lp = [e[1] for e in o.st.ev if e[0] == 'loop']
    if len(lp) != 1:
        return [(None, 'not one walk over the text')]
    info = lp[0]
    n = info['ix'][1]
    # what is walked: the character at hand and where the next one begins
    walk = [l for l in info['changed'] if read(info['prestore'], l)[0] == 'call' and read(info['prestore'], l)[1] == DECODE]
    if not walk and info['range'] is not None:
        return [(False, 'walks over bytes, not characters')]
    if len(walk) != 1:
        return [(None, 'what is walked over is not understood')]
    h = ('hv', n, walk[0], None)
    first = read(info['prestore'], walk[0])
    if v == EMPTY or v == ('push', EMPTY, C(0)):
        return [(False, 'no newline of the text starts a line')]
    if v is None or v[0] != 'hv' or v[1] != n:
        return [(None, 'the answer is not understood')]
    res = []
    if first != decoded(('it', T, C(0)), T):
        res.append((False if first[3:4] and first[3][0] == 'it' else None, 'the walk starts at %s' % fmt(first)[-80:]))
    pre = read(info['prestore'], v[2])
    if pre != ('push', EMPTY, C(0)):
        res.append((False if pre[0] in ('push', 'empty') else None, 'there is %s before the first newline' % fmt(pre)[:40]))
    end = mk_eq(h, decoded(('it', T, size_of(T)), T))
    if info['exits']:
        res.append((False, 'leaves the walk'))
    if decide(o.st, end) is not True:
        res.append((None, 'the walk may end before the text does'))
    nl = mk_eq(('fld', h, 'first'), C(10))
    for kind, facts, ev, val in info['paths']:
        if kind == 'throw':
            continue
        if kind not in ('norm', 'cont'):
            res.append((False, 'leaves the walk'))
            continue
        added = [e[2] for e in ev if e[0] == 'push' and e[1] == v[2]]
        is_nl = facts.get(nl)
        odd = [a for a in facts if mentions(a, h) and a not in (nl, end) and a not in info['prefacts']]
        other = all(a[0] == 'eq' and mk_eq(('fld', h, 'first'), next((x for x in a[1:] if x[0] == 'c'), C(-1))) == a for a in odd)
        if is_nl is False and added and other:
            res.append((False, 'a line starts behind a character that is no newline'))
            continue
        if is_nl is None or odd:
            res.append((None if odd else False, 'whether a character is a newline is not all that decides'))
            continue
        if not is_nl:
            if added:
                res.append((False, 'a line starts behind a character that is no newline'))
            continue
        if len(added) != 1:
            res.append((False, 'a newline starts %d lines' % len(added)))
        elif not req(ring(added[0]), ({info['ix']: 1}, 1)):
            known = set(ring(added[0])[0]) <= {info['ix']}
            res.append((False if known else None, 'a newline that is character i starts a line at %s' % fmt(added[0])[:40]))
    for facts, s in info['ends']:
        nxt = read(s, walk[0])
        if nxt != decoded(('fld', h, 'second'), T):
            res.append((False if nxt[0] == 'call' and nxt[1] == DECODE or nxt == h else None, 'the walk goes on at %s' % fmt(nxt)[:80]))
    return res

"""Comparison of what a function does on its paths with a decision tree of what it ought to do.

A tree is ('if', atom, then, else), ('val', term) or a callable(st, value) -> None | (ok, text).
Every path of the function is held against every leaf its facts leave possible; the function agrees
when under the facts of both the value answered is the leaf's."""
import refr
from absint import Interp, Budget, C, TRUE, FALSE, NULL, EMPTY, at, read, fmt, decide, assume, mk_eq, mk_not, mk_lt, size_of, mentions, project
from front import loc

BAD, UNK = False, None


def If(atom, then, els):
    return ('if', atom, then, els)


def Val(t):
    return ('val', t)


def leaves(st, tree):
    """(state, leaf) for each leaf that the facts of the state leave possible"""
    if callable(tree) or tree[0] == 'val':
        yield st, tree
        return
    _, atom, then, els = tree
    d = decide(st, atom)
    if d is not False:
        s = st if d else assume(st.copy(), atom, True)
        if s is not None:
            yield from leaves(s, then)
    if d is not True:
        s = st if d is False else assume(st.copy(), atom, False)
        if s is not None:
            yield from leaves(s, els)


def path(tree, st, pre):
    """the conditions of the tree a state adds, as text"""
    return [('' if v else 'not ') + fmt(a)[:50] for a, v in st.facts.items() if pre.facts.get(a) != v and a[0] != 'live']


def odd(v):
    """a value the analysis has no reading of"""
    if v is None:
        return True
    return isinstance(v, tuple) and (bool(v[:1]) and v[0] in ('apply', 'u', 'other', 'hv', 'free', 'out', 'loc') or
                                     any(odd(x) for x in v if isinstance(x, tuple) and x))


def is_bool(t):
    return t in (TRUE, FALSE)


def whole(v, w):
    """a record each part of which that is known is that part of w"""
    return v is not None and v[0] == 'rec' and bool(v[2]) and all(
        x == project(w, k) or whole(x, project(w, k)) for k, x in v[2])


def same(st, v, w):
    """True / False / None: the values agree under the facts"""
    if v == w or whole(v, w):
        return True
    if v in (TRUE, FALSE) and not is_bool(w):
        d = decide(st, ('T', w))
        if d is not None:
            return d == (v == TRUE)
    if v is None:
        return None
    if is_bool(w):
        d = decide(st, v)
        if d is not None:
            return d == (w == TRUE)
        return None if odd(v) else False
    d = decide(st, mk_eq(v, w))
    if d is not None:
        return d
    if w == NULL:
        d = decide(st, ('T', v))
        if d is not None:
            return not d
    return None if odd(v) else False


def agree(st, v, tree):
    """list of (ok, text) disagreements of a path's value with the tree"""
    out = []
    for s, leaf in leaves(st, tree):
        if callable(leaf):
            r = leaf(s, v)
            if r is None:
                continue
            ok, text = r
        else:
            ok = same(s, v, leaf[1])
            if ok is True:
                continue
            text = 'answers %s, not %s' % (fmt(v)[:80] if v is not None else 'nothing', fmt(leaf[1])[:80])
        cond = path(tree, s, st)
        out.append((ok, text + (' when ' + ' and '.join(cond) if cond else '')))
    return out


def compare(R, P, f, tree, rule, kind, this=('obj', 'this'), args=None, what=None, hooks=None, noinline=(), st=None,
            effect=None, throws=None, skip=None, max_states=1500, depth=8, label=''):
    """follow f on all paths and hold every path against the tree; effect(st, o) may return a further disagreement"""
    R.seen(f)
    I = Interp(P, hooks=hooks or refr.hooks(), max_states=max_states, noinline=noinline, max_depth=depth)
    name = what or f['q']
    try:
        outs = I.run(f, this, args, st)
    except Budget:
        R.undecided(loc(f), '%s: too many paths' % name)
        return None
    ok = True
    n = 0
    for o in outs:
        if skip is not None and skip(o):
            continue
        n += 1
        if o.kind == 'throw':
            res = throws(o.st, o.val) if throws else [(UNK, 'raises')]
            res = res or []
        else:
            v = I.val(o.st, o.val) if o.val is not None else None
            res = agree(o.st, v, tree) if tree is not None else []
        if effect is not None and o.kind != 'throw':
            e = effect(o.st, o)
            if e is not None:
                res = res + [e]
        for good, text in res:
            if good is False:
                ok = False
                R.violate(loc(f), rule, '%s: %s' % (name, text), '%s|%s' % (name, text[:90]))
            else:
                ok = None if ok else ok
                R.undecided(loc(f), '%s: %s' % (name, text))
    R.ob(kind, '%s %s (%d paths)' % (loc(f), name, n) + (' ' + label if label else ''), ok is True)
    return ok


def fold_of(st, v):
    """(container, lo, hi, start, accumulator, element, [(facts, next value)]) of an accumulated value, or None"""
    def find(ev):
        for e in ev:
            if e[0] == 'loop':
                yield e[1]
                for p in e[1]['paths']:
                    yield from find(p[2])
    if v is not None and v[0] == 'fold':
        for info in find(st.ev):
            if info['ix'] == v[1] and info.get('op'):
                r = info['range']
                pos = info['ix']
                steps = [(facts, val[1]) for kind, facts, ev, val in info['paths'] if val is not None and val[0] == 'V']
                return r[1], r[2], r[3], info['op'][0], info['op'][1], ('elem', r[1], pos), steps, info
    if v is not None and v[0] == 'hv' and len(v) > 2:
        for info in find(st.ev):
            if info['ix'] == ('ix', v[1]) and info['range'] is not None and not any(
                    x == 'brk' for x in info['exits']):
                r = info['range']
                ends = info.get('ends')
                if ends is None:
                    return None
                steps = [(facts, read_end(s, v[2])) for facts, s in ends]
                if any(p[0] not in ('norm', 'cont', 'throw') for p in info['paths']):
                    return None
                return r[1], r[2], r[3], read(info['prestore'], v[2]), v, ('elem', r[1], info['ix']), steps, info
    return None


def read_end(s, l):
    return read(s, l)


def pointee(t):
    return at(t)

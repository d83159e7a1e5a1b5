"""Is the value a path leaves at one place a full copy of what was at another place?"""
from absint import C, NULL, at, decide, read, size_of, fmt, mk_eq, mentions
from eqrule import shape, shape_s
from seqv import describe, FactsOnly

OK, BAD, UNK = True, False, None


def parts_of(P, q):
    """members, those of the repository's own base classes included"""
    res = []
    for b in P.recs[q].get('bases', ()):
        if b['q'] in P.recs and not b['q'].startswith('std::'):
            res += parts_of(P, b['q'])
    return res + [f for f in P.recs[q]['fields'] if not f.get('static')]


def norm(P, sh):
    """a class that only derives from a standard sequence is that sequence"""
    if sh[0] == 'rec' and sh[1] in P.recs:
        r = P.recs[sh[1]]
        if not r['fields'] and len(r.get('bases', ())) == 1:
            b = shape_s(r['bases'][0]['q'])
            if b[0] == 'vec':
                return b
    return sh


class Copy:
    """verdict of copied(): .ok True/False/None and .why"""

    def __init__(self, ok, why=''):
        self.ok = ok
        self.why = why


def opaque(v):
    """terms whose meaning the analysis does not know"""
    if v[0] in ('call', 'u', 'other', 'hv', 'free'):
        return True
    return False


def copied(P, st, sh, v, src, facts=None):
    """v: value term of the destination; src: location copied from (its initial content)"""
    fs = facts if facts is not None else st
    sh = norm(P, sh)
    k = sh[0]
    if v == src and k != 'ptr':
        return Copy(OK)
    if v == ('dcopy', src):
        return Copy(OK)
    if v[0] == 'fld' and v[1] == ('dcopy', src[1] if src[0] == 'fld' else None) and src[0] == 'fld' and v[2] == src[2]:
        return Copy(OK)
    if k == 'ptr':
        if v == ('clone', at(src), C(15)):
            return Copy(OK)
        if v[0] == 'clone':
            if v[1] != at(src):
                return Copy(BAD, 'is a clone of %s, not of %s' % (fmt(v[1]), fmt(at(src))))
            return Copy(BAD if v[2][0] == 'c' else UNK, 'is cloned with flags %s, not everything' % fmt(v[2]))
        if v == NULL or v[0] == 'fresh':
            d = decide(fs, ('T', src))
            if d is False:
                return Copy(OK)
            return Copy(BAD, 'is left unset although the source %s' % ('is set' if d else 'may be set'))
        if v == src:
            if decide(fs, ('T', src)) is False:
                return Copy(OK)
            return Copy(BAD, 'shares the element of the source instead of cloning it')
        if v[0] == 'new':
            w = read(st, v[1])
            if w == at(src) or w == ('dcopy', at(src)):
                return Copy(OK)
            if w[0] == 'fresh' or w[0] in ('empty', 'ctor'):
                return Copy(BAD, 'is a fresh object instead of a copy of the source')
            if w[0] == 'fromrange' or True:
                d = describe(st, w)
                if d is not None:
                    return seq_copied(P, st, None, d, at(src))
            return Copy(UNK, 'is built from %s' % fmt(w)[:80])
        return Copy(UNK, 'is %s' % fmt(v)[:80])
    if k == 'vec':
        d = describe(st, v)
        if d is None:
            return Copy(UNK, 'is %s' % fmt(v)[:80])
        return seq_copied(P, st, sh[1], d, src)
    if k == 'pair':
        a, b = part(st, v, 'first'), part(st, v, 'second')
        r = copied(P, st, sh[1], a, ('fld', src, 'first'), facts)
        if r.ok is not True:
            return Copy(r.ok, 'first part ' + r.why)
        r = copied(P, st, sh[2], b, ('fld', src, 'second'), facts)
        return r if r.ok else Copy(r.ok, 'second part ' + r.why)
    if k == 'rec' and (v[0] in ('fresh', 'empty') or v[0] == 'ctor' and len(v) == 2):
        return Copy(BAD, 'keeps its default')
    if k == 'rec' and sh[1] in P.recs and not opaque(v):
        return rec_copied(P, st, sh[1], v, src, facts)
    if k == 'scalar':
        if opaque(v):
            return Copy(UNK, 'is %s' % fmt(v)[:80])
        d = fs and decide(fs, ('eq',) + tuple(sorted((v, src), key=repr)))
        if d is True:
            return Copy(OK)
        if sh == ('scalar', 'bool'):
            a = decide(fs, ('T', src))
            if v[0] == 'c' and a is not None:
                return Copy(bool(v[1]) == a, 'is %s' % fmt(v))
        return Copy(BAD, 'becomes %s' % fmt(v)[:80])
    if v[0] == 'fresh' or v[0] == 'empty' or v[0] == 'ctor' and len(v) == 2:
        return Copy(BAD, 'keeps its default')
    return Copy(UNK, 'is %s' % fmt(v)[:80])


def rec_copied(P, st, q, v, src, facts=None):
    from absint import project
    unk = None
    for f in parts_of(P, q):
        w = project(v, ('fld', f['n']))
        r = copied(P, st, shape(P, f['t']), w, ('fld', src, f['n']), facts)
        if r.ok is BAD:
            return Copy(BAD, '.%s %s' % (f['n'], r.why))
        if r.ok is UNK:
            unk = Copy(UNK, '.%s %s' % (f['n'], r.why))
    return unk or Copy(OK)


def part(st, v, n):
    from absint import project
    return project(v, ('fld', n))


def seq_copied(P, st, esh, d, src):
    """the described sequence is an element-by-element copy of the container at src"""
    if d == [('old', src)]:
        return Copy(OK)
    if len(d) == 0:
        if decide(st, ('eq',) + tuple(sorted((size_of(src), C(0)), key=repr))) is True or \
                decide(st, ('T', size_of(src))) is False:
            return Copy(OK)
        return Copy(BAD, 'stays empty')
    if any(x[0] == 'old' and mentions(x[1], ('obj', 'this')) for x in d):
        return Copy(BAD, 'keeps its former content')
    if len(d) > 1:
        return Copy(BAD if all(x[0] in ('map', 'one', 'range') for x in d) else UNK,
                    'gets other elements besides the copied ones')
    x = d[0]
    if x[0] == 'range':
        if x[1] != src:
            return Copy(UNK, 'is filled from %s' % fmt(x[1]))
        if x[2] != C(0) or x[3] != size_of(src):
            return Copy(BAD, 'copies only positions %s..%s' % (fmt(x[2]), fmt(x[3])))
        if esh is None or esh[0] in ('scalar', 'rec'):
            return Copy(OK)
        return Copy(UNK, 'copies owning pointers as a range')
    if x[0] == 'map':
        info, paths = x[1], x[2]
        rng = info['range']
        if rng is None:
            c = {k: v for k, v in info['common'].items()}
            ix, n = info['ix'], size_of(src)
            if set(info['exits']) <= {'cond'} and (c.get(('lt', ix, n)) is True or c.get(mk_eq(ix, n)) is False):
                rng = ('range', src, C(0), n)
            else:
                return Copy(UNK, 'is filled by a loop whose range is not understood')
        if rng[1] != src and read(info['prestore'], rng[1]) != src:
            return Copy(UNK, 'is filled by a loop over %s' % fmt(rng[1]))
        if rng[2] != C(0) or rng[3] != size_of(src):
            return Copy(BAD, 'copies only positions %s..%s' % (fmt(rng[2]), fmt(rng[3])))
        el = ('elem', rng[1], info['ix'])
        for kind, facts, vals in paths:
            if kind == 'brk':
                return Copy(BAD, 'stops copying early')
            if kind == 'ret':
                return Copy(UNK, 'leaves the copying loop early')
            if len(vals) != 1:
                return Copy(BAD, 'gets %d elements for one element of the source' % len(vals))
            r = copied(P, st, esh or ('scalar',), vals[0], el, FactsOnly(facts))
            if r.ok is not True and rng[1] != src:
                r = copied(P, st, esh or ('scalar',), vals[0], ('elem', src, info['ix']), FactsOnly(facts))
            if r.ok is not True:
                return Copy(r.ok, 'gets an element that ' + r.why)
        return Copy(OK)
    return Copy(UNK, 'is %s' % (x,)) if x[0] != 'one' else Copy(BAD, 'gets a single element')

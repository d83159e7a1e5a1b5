"""V02: the JSON schema generated for a type is the one the type describes."""
import refr
import v01
from absint import Interp, Budget, C, NULL, TRUE, FALSE, EMPTY, St, at, read, write, fmt, decide, assume, mk_eq, mk_not, size_of, mentions
from v01 import plain, known, Strange, Wrong, Split, Ask, bit, has, parts, short, possible

FILE = 'refract/JsonSchema.cc'
SO = v01.SO


def make_hooks(P, me):
    H = v01.make_hooks(P, me)
    inner, ictor = H['call'], H['ctor']

    def here(e):
        f = P.fns.get(e['f'])
        return f is not None and f['file'].endswith(FILE)

    def ctor(I, e, s, fr, l, args):
        q = e['q']
        if q in (SO + 'Object::(ctor)', SO + 'Array::(ctor)', SO + 'Object::Object', SO + 'Array::Array') and len(args) >= 1 and 'from_list' in P.ty(e['a'][0]['t'])['s']:
            k = 'Object' if '::Object' in q[len(SO) - 2:] else 'Array'
            d = EMPTY
            for a in args[1:]:
                d = ('push', d, I.val(s, a))
            write(s, ('fld', l, '#type'), ('s', SO + k))
            write(s, ('fld', l, 'data'), d)
            return [s]
        return ictor(I, e, s, fr, l, args)

    def call(I, e, b, s, fr, ob, args):
        if b is None:
            return None
        n = b.rsplit('::', 1)[-1]
        if here(e):
            if n == 'makeSchema' and me['n'] != n and len(args) == 2:
                return [(s, ('V', ('schema of', I.as_loc(s, args[0]), I.val(s, args[1]))))]
            if n in ('renderSchema', 'renderSchemaSpecific') and len(args) == 3:
                l = I.as_loc(s, args[0])
                s.emit('schema', l, I.as_loc(s, args[1]), I.val(s, args[2]))
                return [(s, ('L', l))]
            if n in ('renderProperty', 'renderPropertySpecific') and len(args) == 3:
                l = I.as_loc(s, args[0])
                s.emit('property', l, I.as_loc(s, args[1]), I.val(s, args[2]))
                write(s, l, ('properties in', l))
                return [(s, ('V', ('void',)))]
            if n == 'materialize' and me['n'] != n:
                if len(args) == 2:
                    l = I.as_loc(s, args[0])
                    s.emit('materialize', l, I.val(s, args[1]))
                    return [(s, ('L', l))]
                return [(s, ('V', ('materialized', I.val(s, args[0]))))]
            if n == 'wrapNullable' and me['n'] != n and len(args) == 2:
                l = I.as_loc(s, args[0])
                c = ('T', bit(I.val(s, args[1]), 2))
                r = []
                for x in (True, False):
                    s2 = I.copy_state(s) if hasattr(I, 'copy_state') else s.copy()
                    t = bit(I.val(s, args[1]), 2)
                    s2 = assume(s2, t, x) if t not in (TRUE, FALSE) else s2 if (t == TRUE) == x else None
                    if s2 is not None:
                        if x:
                            s2.emit('nullable', l)
                        r.append((s2, ('L', ('alt', l) if x else l)))
                return r
            if n == 'renderPattern' and me['n'] != n and len(args) == 2:
                return [(s, ('V', ('pattern', I.as_loc(s, args[0]), I.val(s, args[1]))))]
            if n == 'flattenAnyOfs' and me['n'] != n and len(args) == 1:
                return [(s, ('V', ('nested', I.as_loc(s, args[0]))))]
            if n == 'reduce' and me['n'] != n:
                return [(s, ('V', ('void',)))]
            if n == 'key' and me['n'] != n and len(args) == 1:
                return [(s, ('V', ('key', I.as_loc(s, args[0]))))]
        if n == 'operator==' and len(args) == 2 and b.startswith(('drafter::utils::so::', 'std::operator==', 'mpark::')) and me['file'].endswith('so/Value.cc') and e['f'] != me['f']:
            ts = [P.ty(x['t'])['s'] for x in e['a'][-2:]]
            if all(SO in t for t in ts):
                return [(s, ('V', mk_eq(plain(I.val(s, args[0])), plain(I.val(s, args[1])))))]
        if b == 'refract::sizeOf' and len(args) in (1, 2):
            return [(s, ('V', ('size of', I.as_loc(s, args[0]), I.val(s, args[1]) if len(args) > 1 else FALSE)))]
        if n == 'emplace_unique' and len(args) == 2 and me['n'] != n and 'Array' in P.ty(e['a'][0]['t'])['s']:
            l = I.as_loc(s, args[0])
            s.emit('member', l, I.val(s, args[1]))
            write(s, ('fld', l, 'data'), ('grown', ('fld', l, 'data')))
            return [(s, ('V', ('void',)))]
        if n in ('hasFixedTypeTypeAttr', 'hasRequiredTypeAttr', 'isVariable') and len(args) == 1:
            return [(s, ('V', (n, I.as_loc(s, args[0]))))]
        if b == 'refract::generateJsonValue' and len(args) == 1:
            return [(s, ('V', ('value of', I.as_loc(s, args[0]))))]
        return inner(I, e, b, s, fr, ob, args)
    H['call'], H['ctor'] = call, ctor
    return H


def run(P, f):
    I = Interp(P, hooks=make_hooks(P, f), max_states=20000, max_depth=12)
    I.max_steps = 4000000
    return I, I.run(f)


# ---- terms ----------------------------------------------------------------------------------------------

RULE = 'schema-described'
QUIET = v01.QUIET
FIXED, TYPE, NULLABLE, REQUIRED = range(4)
WORD = ('fixed', 'fixed-type', 'nullable', 'required')


TEXTS = {}


def text(t):
    return t[1] if t[0] in ('s', 'strlit') else TEXTS.get(t)


def unwrapped(t):
    while t[0] == 'trunc':
        t = t[3]
    return t


def nf(t):
    """a value as it is written, or the term for it"""
    t = plain(t)
    if t[0] == 'rec':
        d = dict(x for x in t[2] if isinstance(x, tuple) and len(x) == 2)
        k = d.get(('fld', '#type'))
        if k and k[0] == 's' and k[1].startswith(SO):
            t = ('so', k[1][len(SO):], d.get(('fld', 'data'), EMPTY)) if k[1][len(SO):] not in ('Object', 'Array') else \
                ('so', k[1][len(SO):], None, d.get(('fld', 'data'), EMPTY))
    if t[0] != 'so':
        return t
    if t[1] == 'String':
        return ('str', text(t[2]) if t[2] and text(t[2]) is not None else t[2])
    if t[1] == 'Number':
        x = t[2]
        return ('num', x[3] if x and x[0] == 'call' and x[1] == 'std::to_string' else x)
    if t[1] in ('Null', 'True', 'False'):
        return (t[1].lower(),)
    if t[2] is not None and t[2][0] == 'lv' and t[3] != EMPTY and t[3][0] != 'push':
        return ('local', t[1], t[2])
    r, d = [], t[3]
    while d[0] == 'push':
        x = plain(d[2])
        if t[1] == 'Object':
            p = pair(x)
            x = (p[0], p[1]) if p else ('?', x)
        else:
            x = nf(x)
        r.insert(0, x)
        d = d[1]
    if d != EMPTY:
        return ('local', t[1], base(d)) if not r and base(d) else t
    return ('obj' if t[1] == 'Object' else 'arr', tuple(r))


def base(d):
    """the local collection a term stands for the contents of"""
    if d[0] == 'grown':
        d = d[1]
    if d[0] == 'hv':
        d = d[2]
    if d[0] == 'fld' and d[2] == 'data' and d[1][0] in ('lv', 'tmp'):
        return d[1]
    return None


def pair(x):
    if x[0] == 'rec':
        d = dict(y for y in x[2] if isinstance(y, tuple) and len(y) == 2)
        k, v = d.get(('fld', 'first')), d.get(('fld', 'second'))
        if k is not None and v is not None:
            return (text(k) if text(k) is not None else k, nf(v))
    return None


def effects(evs):
    r = []
    for e in evs:
        k = e[0]
        if k in ('property', 'schema'):
            r.append((k, plain(e[1]), plain(e[2]), plain(e[3])))
        elif k == 'materialize':
            r.append((k, plain(e[1]), plain(e[2])))
        elif k == 'nullable':
            r.append((k, plain(e[1])))
        elif k == 'member':
            r.append((k, plain(e[1])) + (tuple(nf(x) for x in e[2:]) if len(e) == 3 else (plain(e[2]), nf(e[3]))))
        elif k == 'push':
            to = plain(e[1])
            p = pair(plain(e[2]))
            if to[0] == 'fld' and to[2] == 'data':
                r.append(('put', to[1]) + p if p else ('add', to[1], nf(e[2])))
            elif to[0] not in ('lv', 'tmp'):
                raise Strange('something is added to %s' % short(to))
        elif k == 'loop':
            n = e[1]
            anew = {plain(x[1]) for _, _, ev, _ in n['paths'] for x in ev if x[0] in ('assign', 'store', 'clear', 'swap') and len(x) > 1}
            r.append(('for', n['ix'], plain(n['range']), [(kind, known(fs), effects(x)) for kind, fs, x, v in n['paths']],
                      {plain(x) for x in n['changed']} - anew))
        elif k == 'call' and (e[1].endswith('::(ctor)') or e[1].startswith(('std::lock_guard', 'std::this_thread', 'std::time', 'std::put_time', 'localtime', 'std::localtime', 'time', 'std::to_string', 'std::get'))):
            pass
        elif k in ('store', 'assign') and e[1][0] in ('lv', 'tmp') or k == 'store' and e[1][0] == 'fld' and e[1][1][0] in ('lv', 'tmp'):
            pass
        elif k in QUIET or k == 'out' or k == 'call' and 'instance_' in repr(e):
            pass
        elif k in ('erase', 'remove', 'insert', 'store', 'assign'):
            raise Strange('it also does: %s' % k)
    return r


bare = v01.bare


def flags(A, t):
    return tuple(A.true(bit(t, i)) for i in range(4))


def own(A, e, o):
    return tuple(o[i] or A.true((n, e)) for i, n in enumerate(('hasFixedTypeAttr', 'hasFixedTypeTypeAttr', 'hasNullableTypeAttr', 'hasRequiredTypeAttr')))


def child(A, o, x, required=False):
    return (o[FIXED] and A.true(('inheritsFixed', x)), False, False, required)


def said(a, b):
    return ' and '.join(('' if x else 'not ') + w for x, y, w in zip(a, b, WORD) if x != y)


def flagged(A, got, want, what):
    a = flags(A, got)
    if a != want:
        x = Wrong('%s is made as if %s' % (what, said(a, want)))
        x.sure = not v01.unclear(got)
        raise x


def nullschema():
    return ('obj', (('type', ('str', 'null')),))


def show(v):
    try:
        return short(v)
    except (TypeError, IndexError):
        return str(v)[:160]


def expect(A, fx, want):
    """the effects, in any order of keys, are these"""
    got = list(fx)
    for w in want:
        m = next((g for g in got if g[0] == w[0] and g[1] == w[1] and (w[0] != 'put' or g[2] == w[2])), None)
        if m is None:
            near = next((g for g in got if g[0] == w[0] and w[0] == 'put' and g[2] == w[2]), None)
            if near:
                raise Wrong('"%s" is put elsewhere' % w[2])
            if w[0] == 'put':
                raise Wrong('"%s" is left out' % w[2])
            raise Wrong({'nullable': 'null is not allowed for', 'schema': 'the schema is left out', 'property': 'the property is left out',
                         'materialize': 'what was collected of the members is left out', 'for': 'the entries are left out'}.get(w[0], w[0] + ' is left out'))
        got.remove(m)
        if w[0] == 'put':
            v = w[3]
            if callable(v):
                v(m[3])
            elif m[3] != v:
                raise Wrong('"%s" is %s' % (w[2], show(m[3])))
        elif w[0] in ('schema', 'property'):
            if m[2] != w[2]:
                raise Wrong('it is made of %s' % short(m[2]))
            flagged(A, m[3], w[3], short(w[2]))
    to = {w[1] for w in want}
    got = [g for g in got if not (g[0] in ('put', 'add') and g[1][0] in ('lv', 'tmp') and g[1] not in to)]
    if got:
        g = got[0]
        raise Wrong('%s is added, which should not' % (('"%s"' % (g[2],))[:80] if g[0] == 'put' else g[0]))


def each(A, loop, l, body):
    """every entry of l, none left out: body says for a path what is wrong"""
    if v01.over(loop[2]) != l:
        raise Wrong('the entries of %s are taken' % short(v01.over(loop[2])))
    for kind, fs, fx in loop[3]:
        if fs is None or any("('at', ('null',))" in repr(k) for k in fs):
            continue
        if any(k in A.s and A.s[k] != v or k in A.f and A.f[k] != v for k, v in fs.items()):
            continue
        A2 = Ask({**A.f, **fs}, A.s)
        if not possible(A2, fs):
            continue
        fx = bare(fx)
        if kind not in ('norm', 'cont'):
            if fx:
                raise Wrong('the entries after one are left out')
            if kind == 'brk' and any(mentions(k, ('elem', l, loop[1])) and k[0] != 'lt' for k in fs):
                raise Wrong('the entries after one are left out')
            raise Strange('a loop left early (%s)' % kind)
        body(A2, ('at', ('elem', l, loop[1])), fx)


def loops(fx):
    return [x for x in fx if x[0] == 'for']


# ---- what is due ----------------------------------------------------------------------------------------

def wrapped(s, o):
    return ([('nullable', s)], ('alt', s)) if o[NULLABLE] else ([], s)


def s_impossible(A, s, e, o, fx):
    expect(A, fx, [('put', s, 'oneOf', ('arr', (('obj', ()), ('obj', ()))))])


def s_null(A, s, e, o, fx):
    expect(A, fx, [('put', s, 'type', ('str', 'null'))])


def s_holder(A, s, e, o, fx):
    d = ('fld', ('fld', e, 'data_'), 'data_')
    expect(A, fx, [('schema', s, ('at', d), o)] if has(A, e) and A.true(d) else [])


def s_ref(A, s, e, o, fx):
    expect(A, fx, [('schema', s, ('at', ('resolve', e)), o)] if A.true(('resolve', e)) else [])


def s_extend(A, s, e, o, fx):
    expect(A, fx, [('schema', s, ('at', ('merged', ('fld', e, 'data_'))), o)])


def s_primitive(name):
    def due(A, s, e, o, fx):
        o = own(A, e, o)
        v = ('instantiate', ('fld', e, 'data_'))
        if o[FIXED] and has(A, e):
            if o[NULLABLE]:
                def vals(x):
                    if x[0] != 'arr' or sorted(map(repr, x[1])) != sorted(map(repr, [('null',), v])):
                        raise Wrong('"enum" is %s' % show(x))
                return expect(A, fx, [('put', s, 'enum', vals)])
            if len(fx) == 1 and fx[0] == ('put', s, 'enum', ('arr', (v,))):
                return
            return expect(A, fx, [('put', s, 'const', v)])
        if o[NULLABLE]:
            def alts(x):
                if x[0] == 'arr' and sorted(map(repr, x[1])) == sorted(map(repr, [('str', 'null'), ('str', name)])):
                    return
                if x[0] != 'arr' or sorted(map(repr, x[1])) != sorted(map(repr, [nullschema(), ('obj', (('type', ('str', name)),))])):
                    raise Wrong('"anyOf" is %s' % show(x))
            return expect(A, fx, [('put', s, 'anyOf', alts)])
        expect(A, fx, [('put', s, 'type', ('str', name))])
    return due


def s_object(A, s, e, o, fx):
    o = own(A, e, o)
    pre, t = wrapped(s, o)
    closed = o[FIXED] or o[TYPE]
    want = pre + [('put', t, 'type', ('str', 'object'))]
    if closed:
        want.append(('put', t, 'additionalProperties', ('false',)))
    ls = loops(fx)
    m = [x for x in fx if x[0] == 'materialize']
    if has(A, e):
        if not m:
            raise Wrong('what was collected of the members is left out')
        if not ls:
            raise Wrong('the members are left out')
        to = {b[1] for l in ls for p in l[3] for b in bare(p[2]) if b[0] == 'property'}
        if len(to) != 1:
            raise Strange('the members are collected in %d places' % len(to))
        to = to.pop()
        if not mentions(m[0][2], to):
            raise Wrong('what was collected of the members is left out')

        def body(A2, x, b):
            expect(A2, b, [('property', to, x, child(A2, o, x, closed))])
        each(A, ls[0], parts(e), body)
    expect(A, [x for x in fx if x[0] not in ('for', 'materialize')] + ls[1:] + m[1:], want)
    if m and m[0][1] != t:
        raise Wrong('what was collected of the members is put elsewhere')


def s_array(A, s, e, o, fx):
    o = own(A, e, o)
    pre, t = wrapped(s, o)
    want = pre + [('put', t, 'type', ('str', 'array'))]
    l = parts(e)
    ls = loops(fx)

    def gathered(kind, to):
        if len(ls) != 1:
            raise Wrong('the items are left out')

        def body(A2, x, b):
            if len(b) != 1 or b[0][0] not in kind or b[0][1] != to:
                raise Wrong('%s' % ('an item is left out' if not b else 'an item is added elsewhere or otherwise'))
            v = b[0][-1]
            if v[:2] != ('schema of', x):
                raise Wrong('an item is %s' % show(v))
            flagged(A2, v[2], child(A2, o, x), 'an item')
        each(A, ls[0], l, body)

    if o[TYPE]:
        if not has(A, e):
            want.append(('put', t, 'maxItems', ('num', C(0))))
        elif A.key(('eq', C(1), ('size', l))):
            def one(v):
                x = ('at', ('elem', l, C(0)))
                if v[:2] != ('schema of', x):
                    raise Wrong('"items" is %s' % show(v))
                flagged(A, v[2], child(A, o, x), 'the items')
            want.append(('put', t, 'items', one))
        else:
            def some(v):
                if v[0] != 'obj' or len(v[1]) != 1 or v[1][0][0] != 'anyOf' or v[1][0][1][0] != 'local':
                    raise Wrong('"items" is %s' % show(v))
                gathered(('member', 'add'), v[1][0][1][2])
            want.append(('put', t, 'items', some))
    elif o[FIXED]:
        if has(A, e):
            place = []

            def tuple_(v):
                if v[0] != 'local':
                    raise Wrong('"items" is %s' % show(v))
                gathered(('add',), v[2])
                place.append(v[2])

            def many(v):
                if v[0] != 'num':
                    raise Wrong('"minItems" is %s' % show(v))
                n = unwrapped(v[1])
                if n == ('size', l):
                    return
                if n[0] != 'size' or base(n[1]) is None:
                    raise Wrong('"minItems" is %s' % show(v))
            want += [('put', t, 'items', tuple_), ('put', t, 'minItems', many)]
        else:
            want += [('put', t, 'items', ('arr', ())), ('put', t, 'minItems', ('num', C(0)))]
        want.append(('put', t, 'additionalItems', ('false',)))
    expect(A, [x for x in fx if x[0] != 'for'], want)
    if len(ls) > 1:
        raise Strange('several loops')


def listed_values(A, e):
    """the collection of enumerations, or None"""
    at_ = ('fld', ('fld', e, 'attributes_'), 'elements')
    for k, v in A.f.items():
        if k[0] == 'eq' and v and ('s', 'enumerations') in k[1:]:
            x = k[1] if k[2][0] == 's' else k[2]
            if x[0] == 'fld' and x[2] == 'first' and x[1][:2] == ('elem', at_):
                return ('at', ('fld', x[1], 'second'))
    if any(k[0] == 'forall' and not v and ('s', 'enumerations') in k[2][1:] for k, v in A.f.items()):
        return None
    if not any('enumerations' in repr(k) for k in A.f):
        raise Wrong('the enumerations are not looked at')
    raise Strange('the enumerations are looked up in a way not followed')


def nothing_in(A, x, final):
    """whether a local collection is known to be empty"""
    for k, v in A.f.items():
        if k[0] == 'T' and k[1][0] == 'size' and base(k[1][1]) == x:
            return not v
        if k[0] == 'lt' and k[1] == C(0) and k[2][0] == 'size' and base(k[2][1]) == x:
            return not v
    return None


def only(A, v):
    """the collection a list of values is, whether as const or enum"""
    if v[0] == 'const':
        x = v[1]
        if x[0] == 'elem' and x[2] == C(0) and base(x[1]):
            return base(x[1])
        return None
    return v[1][2] if v[1][0] == 'local' else None


def s_enum(A, s, e, o, fx):
    o = own(A, e, o)
    l = listed_values(A, e)
    fx = [x for x in fx if not (x[0] == 'for' and not any(bare(p[2]) for p in x[3]))]
    ls = loops(fx)
    if len(ls) > 1:
        raise Strange('several loops')
    puts = [x for x in fx if x[0] == 'put' and x[1][0] not in ('lv', 'tmp')]
    if len(puts) != 1 or puts[0][1] != s or puts[0][2] not in ('enum', 'const', 'anyOf'):
        raise Wrong('it is described by %s' % (', '.join('"%s"' % short(p[2]) if not isinstance(p[2], str) else p[2] for p in puts) or 'nothing'))
    key, v = puts[0][2:]
    members = [x for x in fx if x[0] in ('member', 'add')]
    # which local is which
    if l is not None and not has(A, l):
        l = None
    singles = several = None
    if ls:
        for p in ls[0][3]:
            for b in bare(p[2]):
                for g in ([b] if b[0] != 'for' else [c for q in b[3] for c in bare(q[2])]):
                    x = g[-1]
                    if g[0] not in ('member', 'add'):
                        raise Strange('an enumeration adds %s' % g[0])
                    if x[0] == 'value of':
                        singles = g[1]
                    elif x[0] == 'schema of':
                        several = g[1]
    if l is not None:
        if not ls:
            raise Wrong('the enumerations are left out')
        if singles is None or several is None:
            raise Strange('the enumerations are sorted in a way not followed')
        if singles == several:
            raise Wrong('values and schemas are put in one list')

        def body(A2, x, b):
            sch = ('schema of', x)
            if not b:
                raise Wrong('an enumeration is left out')
            if len(b) != 1:
                raise Wrong('an enumeration is added twice')
            g = b[0]
            single = A2.key(('eq', C(1), ('fld', ('size of', x, FALSE), 'data_')))
            if g[0] == 'for':
                r = v01.over(g[2])
                t = r[1][1] if r[0] == 'fld' and r[2] == 'data' and r[1][0] == 'fld' and r[1][2] == 'as Array' else None
                if t is None or not (t[0] == 'fld' and t[2] == 'second' and t[1][0] == 'elem' and t[1][1][0] == 'fld' and t[1][1][1][:2] == sch and t[1][2] == C(0)):
                    raise Strange('an enumeration adds the entries of %s' % short(r))
                d = t[1][1]
                flagged(A2, d[1][2], (o[FIXED], False, False, False), 'an enumeration')
                if not A2.key(('eq', C(1), ('size', d))):
                    raise Wrong('a schema of more than one part is taken apart')
                name = [w for k, y in A2.f.items() if k[0] == 'eq' and y and ('fld', t[1], 'first') in k[1:] for w in map(text, k[1:]) if w]
                to = {'enum': singles, 'anyOf': several}.get(name[0] if name else None)
                if to is None:
                    raise Wrong('a schema of another kind is taken apart')

                def inner(A3, y, c):
                    if len(c) != 1 or c[0][0] != 'member' or c[0][1] != to or c[0][2] != y[1]:
                        raise Wrong('what an enumeration allows is left out or put in the wrong list')
                each(A2, g, r, inner)
                return
            w = g[-1]
            if w == ('value of', x):
                if not single:
                    raise Wrong('an enumeration of more than one value gives only one')
                if g[1] != singles:
                    raise Wrong('a value is put among the schemas')
            elif w[:2] == sch:
                if g[1] != several:
                    raise Wrong('a schema is put among the values')
                flagged(A2, w[2], (o[FIXED], False, False, False), 'an enumeration')
            else:
                raise Wrong('an enumeration gives %s' % show(w))
            if g[0] != 'member':
                raise Wrong('an enumeration is added again where it is there')
        each(A, ls[0], parts(l), body)
    elif ls:
        raise Strange('a loop over something else')
    nulls = [x for x in members if x[2] == ('null',)]
    if len(nulls) != (1 if o[NULLABLE] else 0):
        raise Wrong('null is %s' % ('left out' if o[NULLABLE] else 'added, which should not'))
    if nulls and singles is not None and nulls[0][1] != singles:
        raise Wrong('null is put among the schemas')
    E = singles if singles is not None else nulls[0][1] if nulls else None
    rest = [x for x in members if x not in nulls]
    empty = nothing_in(A, several, True) if several is not None else True
    if empty is None:
        raise Strange('whether there are schemas is not asked')
    if empty:
        if key == 'anyOf':
            raise Wrong('no schemas are offered')
        if key == 'enum' and v == ('arr', ()) and E is None:
            return
        if E is None and key == 'enum' and v[0] == 'local':
            return
        if E is None or only(A, (key, v)) != E:
            if nulls and (key, v) in (('const', ('null',)), ('enum', ('arr', (('null',),)))):
                return
            raise Wrong('"%s" is %s' % (key, show(v)))
        if rest:
            raise Wrong('something is added, which should not')
        return
    if key != 'anyOf' or v[0] != 'local' or v[2] != several:
        raise Wrong('the schemas are left out')
    none = nothing_in(A, E, False)
    if none is None and not nulls:
        raise Strange('whether there are values is not asked')
    if none:
        if rest:
            raise Wrong('something is added, which should not')
        return
    if len(rest) != 1 or rest[0][1] != several:
        raise Wrong('the values are left out of what is offered')
    x = rest[0][2]
    if x[0] != 'obj' or len(x[1]) != 1 or x[1][0][0] not in ('enum', 'const') or only(A, x[1][0]) != E:
        raise Wrong('the values are offered as %s' % show(x))


SCHEMA = {'String': s_primitive('string'), 'Number': s_primitive('number'), 'Boolean': s_primitive('boolean'), 'Null': s_null,
          'Member': s_impossible, 'Option': s_impossible, 'Select': s_impossible, 'Holder': s_holder, 'Ref': s_ref, 'Extend': s_extend,
          'Object': s_object, 'Array': s_array, 'Enum': s_enum}


def p_none(A, s, e, o, fx):
    expect(A, fx, [])


def p_holder(A, s, e, o, fx):
    d = ('fld', ('fld', e, 'data_'), 'data_')
    expect(A, fx, [('property', s, ('at', d), o)] if has(A, e) and A.true(d) else [])


def p_ref(A, s, e, o, fx):
    expect(A, fx, [('property', s, ('at', ('resolve', e)), o)] if A.true(('resolve', e)) else [])


def p_extend(A, s, e, o, fx):
    expect(A, fx, [('property', s, ('at', ('merged', ('fld', e, 'data_'))), o)])


def p_object(A, s, e, o, fx):
    o = (o[FIXED] or A.true(('hasFixedTypeAttr', e)), False, False, False)
    ls = loops(fx)
    if not has(A, e):
        return expect(A, fx, [])
    if len(ls) != 1:
        raise Wrong('the members are left out')

    def body(A2, x, b):
        expect(A2, b, [('property', s, x, o)])
    each(A, ls[0], parts(e), body)
    expect(A, [x for x in fx if x[0] != 'for'], [])


def p_member(A, s, e, o, fx):
    d = ('fld', e, 'data_')
    k, v = [('fld', d, n) for n in ('key_', 'value_')]
    o = (o[FIXED] or A.true(('hasFixedTypeAttr', e)), A.true(('hasFixedTypeTypeAttr', e)), A.true(('hasNullableTypeAttr', e)),
         (o[REQUIRED] or A.true(('hasRequiredTypeAttr', e))) and not A.true(('hasOptionalTypeAttr', e)))
    if not A.true(v):
        return expect(A, fx, [])

    def made(x):
        if x[:2] != ('schema of', ('at', v)):
            raise Wrong('the property is %s' % show(x))
        flagged(A, x[2], o, 'the value of the member')
    if A.true(('isVariable', e)):
        kind = next((w[1][5:] for a, b in A.f.items() if b and a[0] == 'eq' and ('kind', ('at', k)) in a[1:] for w in a[1:] if w[0] == 's'), None)
        if kind is None or kind not in ('Extend', 'String'):
            return
        if len(fx) != 1 or fx[0][0] not in ('member', 'put') or fx[0][1] != ('fld', s, 'patternProperties'):
            raise Wrong('a property of any name is %s' % ('left out' if not fx else 'put elsewhere'))
        if fx[0][0] == 'put':
            raise Wrong('a pattern is added again where it is there')
        p = fx[0][2]
        due = ('at', ('merged', ('fld', ('at', k), 'data_'))) if kind == 'Extend' else ('at', k)
        if p[0] == 'pattern' and p[1] == ('at', NULL):
            return
        if p[0] != 'pattern' or p[1] != due:
            raise Wrong('the pattern is %s' % show(p))
        if A.true(bit(p[2], FIXED)) != o[FIXED]:
            raise Wrong('the pattern is made as if %sfixed' % ('not ' if o[FIXED] else ''))
        made(fx[0][3])
        return
    name = [('key', e), ('renderKey', ('at', k))]
    props = [x for x in fx if x[0] in ('member', 'put') and x[1] == ('fld', s, 'properties')]
    if len(props) != 1:
        raise Wrong('the property is %s' % ('left out' if not props else 'given twice'))
    if props[0][0] == 'put':
        raise Wrong('a property is added again where it is there')
    if props[0][2] not in name:
        raise Wrong('the property is called %s' % show(props[0][2]))
    made(props[0][3])
    rest = [x for x in fx if x not in props]
    if o[REQUIRED]:
        if not rest:
            raise Wrong('a required member is not listed')
        if rest[0][0] == 'add':
            raise Wrong('a required member is listed again where it is there')
        if len(rest) != 1 or rest[0][:2] != ('member', ('fld', s, 'required')) or rest[0][2] not in [('str', n) for n in name]:
            raise Wrong('what is listed as required is %s' % show(rest[0][-1]))
    elif rest:
        raise Wrong('a member that is not required is listed')


def p_select(A, s, e, o, fx):
    ls = loops(fx)
    l = parts(e)
    if len(ls) != 1:
        raise Strange('the options are gone through in a way not followed')
    puts = [x for x in fx if x[0] != 'for']
    alls = [x for x in puts if x[0] in ('add', 'member') and x[1] == ('fld', s, 'allOf')]
    if len(alls) != 1:
        raise Wrong('the choice is %s' % ('left out' if not alls else 'added twice'))
    v = alls[0][2]
    if v[0] != 'obj' or len(v[1]) != 1 or v[1][0][0] != 'oneOf' or v[1][0][1][0] not in ('local', 'arr'):
        raise Wrong('the choice is %s' % show(v))
    if v[1][0][1] == ('arr', ()):
        raise Wrong('the options are left out')
    to = v[1][0][1][2]

    def body(A2, x, b):
        if not (has(A2, x) and A2.some(parts(x))):
            if b:
                raise Wrong('an option without entries is offered')
            return
        inner = loops(b)
        adds = [y for y in b if y[0] in ('add', 'member')]
        if not adds:
            raise Wrong('an option is left out')
        if len(adds) != 1 or adds[0][0] != 'add' or adds[0][1] != to or adds[0][2][0] != 'materialized':
            raise Strange('an option is offered as %s' % show(adds[0]))
        if len(inner) != 1:
            raise Wrong('the entries of an option are left out')
        place = {c[1] for q in inner[0][3] for c in bare(q[2]) if c[0] == 'property'}
        if len(place) != 1 or not mentions(adds[0][2], list(place)[0]):
            raise Wrong('the entries of an option are left out')
        place = place.pop()
        if place in ls[0][4]:
            raise Wrong('an option has the entries of those before it too')

        def entry(A3, y, c):
            expect(A3, c, [('property', place, y, o)])
        each(A2, inner[0], parts(x), entry)
    each(A, ls[0], l, body)
    for x in puts:
        if x not in alls and not (x[0] == 'put' and x[1][0] in ('lv', 'tmp')):
            raise Wrong('something is added, which should not')


PROPERTY = {k: p_none for k in ('Array', 'Boolean', 'Enum', 'Null', 'Number', 'String', 'Option')}
PROPERTY.update(Holder=p_holder, Member=p_member, Ref=p_ref, Object=p_object, Extend=p_extend, Select=p_select)


# ---- the functions --------------------------------------------------------------------------------------

def gone_through(t):
    """a local collection filled in a loop is no less clear for it"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ('hv', 'grown') and base(t):
        return ('filled', base(t))
    return tuple(gone_through(x) for x in t)


def judge(P, f, S, due):
    I, outs = run(P, f)
    n = 0
    for o in outs:
        facts = known(o.st.facts)
        if facts is None or any(('at', ('null',)) in v01.sub(k) for k in facts) or o.kind == 'abort':
            continue
        if o.kind == 'throw':
            S.unk('it may raise')
            continue
        todo = [{}]
        while todo:
            sup = todo.pop()
            A = Ask(facts, sup)
            try:
                if not possible(A, facts):
                    continue
                fx = effects(o.st.ev)
                A.fx = fx
                n += 1
                try:
                    due(A, o, bare(fx))
                except Wrong as x:
                    if not getattr(x, 'sure', False) and v01.unclear(gone_through(tuple(y for y in bare(fx) if y[0] != 'for'))):
                        raise Strange(str(x))
                    S.bad(str(x))
            except Split as x:
                if len(sup) > 9:
                    S.unk('too much is open on a path')
                    continue
                todo += [{**sup, x.key: True}, {**sup, x.key: False}]
            except Wrong as x:
                S.bad(str(x))
            except Strange as x:
                S.unk(str(x))
    return n


def target(o):
    v = o.val
    return v[1] if v and v[0] == 'L' else None


def by_kind(P, f, S, what, k):
    s, e, opt = [('obj', p['n'] or '#%d' % i) for i, p in enumerate(f['ps'])]

    def due(A, o, fx):
        (SCHEMA if what == 'schema' else PROPERTY)[k](A, s, e, flags(A, opt), fx)
    return judge(P, f, S, due)


def handed_on(P, f, S, what):
    s, e, opt = [('obj', p['n']) for p in f['ps']]
    kinds = set()

    def due(A, o, fx):
        kinds.add(next((w[1][5:] for a, v in A.f.items() if v and a[0] == 'eq' and ('kind', e) in a[1:] for w in a[1:] if w[0] == 's'), None))
        expect(A, fx, [(what, s, e, flags(A, opt))])
    n = judge(P, f, S, due)
    if n and None not in kinds and len(kinds) < 13:
        S.bad('elements of some kinds are left out: %s' % ', '.join(sorted(set(refr.KINDS) - kinds)))
    return n


def gathered(P, f, S):
    """what was collected of an object goes into its schema"""
    s = ('obj', f['ps'][-1]['n'])

    def due(A, o, fx):
        t = ('obj', f['ps'][0]['n']) if len(f['ps']) == 2 else next((x[1] for x in fx if x[0] == 'put'), None)
        want = []
        for n in ('properties', 'patternProperties', 'allOf', 'required'):
            x = ('fld', s, n)
            if A.some(('fld', x, 'data')):
                want.append(('put', t, n, x))
        if len(f['ps']) == 1 and want and (not o.val or o.val[0] != 'V' or not mentions(o.val[1], s)):
            raise Wrong('what was collected is left out')
        expect(A, fx, want)
    return judge(P, f, S, due)


def null_allowed(P, f, S):
    s, opt = [('obj', p['n']) for p in f['ps']]

    def due(A, o, fx):
        t = target(o)
        if not A.true(bit(opt, NULLABLE)):
            if t != s:
                raise Wrong('the schema is made elsewhere')
            return expect(A, fx, [])

        def alts(v):
            if v != ('arr', (nullschema(), ('obj', ()))) and v != ('arr', (('obj', ()), nullschema())):
                raise Wrong('"anyOf" is %s' % show(v))
            i = 1 if v[1][1] == ('obj', ()) else 0
            x = plain(t)
            while isinstance(x, tuple) and x and x[0] in ('at', 'addr', 'call', 'fld'):
                x = x[3] if x[0] == 'call' and len(x) > 3 else x[1]
            if not isinstance(x, tuple) or not x or x[0] != 'elem':
                raise Strange('which alternative is filled')
            if x[2] != C(i):
                raise Wrong('the alternative for null is filled')
        expect(A, fx, [('put', s, 'anyOf', alts)])
    return judge(P, f, S, due)


def from_the_top(P, f, S):
    e = ('obj', f['ps'][-1]['n']) if f['n'] == 'generateJsonSchema' else ('obj', f['ps'][0]['n'])

    def due(A, o, fx):
        sc = [x for x in fx if x[0] == 'schema']
        if len(sc) != 1:
            raise Wrong('the schema is %s' % ('left out' if not sc else 'made twice'))
        t = sc[0][1]
        if f['n'] == 'makeSchema':
            return expect(A, fx, [('schema', t, e, flags(A, ('obj', f['ps'][1]['n'])))])
        expect(A, fx, [('put', t, '$schema', ('str', 'http://json-schema.org/draft-07/schema#')), ('schema', t, e, (False,) * 4)])
    return judge(P, f, S, due)


SPECIAL = '^$*+?.()|{}[]\\'
ANY = ('(?:)', '', '.*', '^.*$', '^.*', '.*$', '[\\s\\S]*', '^')
NONE = ('^(?![\\s\\S])', '^$', '^(?!.)$')


def matches(P, f, S):
    """the pattern for a key: any, or with nothing in it special"""
    e, opt = [('obj', p['n']) for p in f['ps']]
    src = ('fld', ('fld', e, 'data_'), 'value_')

    def due(A, o, fx):
        v = plain(o.val[1]) if o.val and o.val[0] == 'V' else None
        if v is None:
            raise Strange('a pattern not followed')
        fixed = A.true(bit(opt, FIXED)) or A.true(('hasFixedTypeAttr', e))
        if text(v) is not None:
            if not fixed:
                if text(v) not in ANY:
                    raise Wrong('a key of any name gives the pattern %s' % text(v))
            elif has(A, e):
                raise Wrong('the pattern does not have the key in it')
            elif text(v) not in NONE:
                raise Wrong('an empty key gives the pattern %s' % text(v))
            return
        if not fixed:
            raise Wrong('a key of any name gives a pattern of its own') if mentions(v, e) else Strange('a pattern not followed')
        if v == src:
            raise Wrong('what is special in a key is left as it is')
        ls = [x[1] for x in o.st.ev if x[0] == 'loop']
        if v[0] != 'hv' or len(ls) != 1 or v01.over(plain(ls[0]['range'])) != src:
            raise Strange('a pattern not followed')
        n, x = ls[0], ('elem', src, ls[0]['ix'])
        seen = set()
        for kind, fs, ev, _ in n['paths']:
            fs = known(fs)
            if fs is None:
                continue
            if kind not in ('norm', 'cont'):
                raise Strange('the pattern is made in a loop left early')
            lit, no = None, set()
            for k, b in fs.items():
                if not mentions(k, x):
                    continue
                c = next((t[1] for t in k[1:] if t[0] == 'c'), None) if k[0] == 'eq' and x in k[1:] else None
                if c is None:
                    raise Strange('a character is asked for in a way not followed')
                if b:
                    lit = chr(c & 255)
                else:
                    no.add(chr(c & 255))
            if lit is not None and lit in no:
                continue
            out = []
            for w in ev:
                if w[0] in ('append', 'push') and plain(w[1]) == v[2]:
                    w = plain(w[2])
                    if w == x:
                        out.append(lit or x)
                    elif text(w) is not None:
                        out.append(text(w))
                    elif w[0] == 'c':
                        out.append(chr(w[1] & 255))
                    else:
                        raise Strange('the pattern is made of %s' % short(w))
                elif w[0] in ('store', 'assign', 'erase', 'insert') and plain(w[1]) == v[2]:
                    raise Strange('the pattern is changed')
            if lit is None:
                for c in SPECIAL:
                    if c not in no:
                        if out == ['\\', x]:
                            continue
                        raise Wrong('%s is left as it is, or lost, in a pattern' % c)
                if out not in ([x], ['\\', x]):
                    raise Wrong('a character of a key is not in its pattern as it is')
            else:
                out = ''.join(out) if x not in out else None
                if lit in SPECIAL and out != '\\' + lit:
                    raise Wrong('%s is not taken as it is in a pattern' % lit)
                if lit not in SPECIAL and out != lit and (lit.isalnum() or out != '\\' + lit):
                    raise Wrong('%s is not taken as it is in a pattern' % lit)
                seen.add(lit)
    return judge(P, f, S, due)


def called(P, f, S):
    """the name of a member is the text of its key"""
    m = ('obj', f['ps'][0]['n'])
    k = ('at', ('fld', ('fld', m, 'data_'), 'key_'))

    def due(A, o, fx):
        v = plain(o.val[1]) if o.val and o.val[0] == 'V' else None
        if not any(b and a[0] == 'eq' and ('kind', k) in a[1:] and ('s', 'kind:String') in a[1:] for a, b in A.f.items()):
            return
        if v == ('fld', ('fld', k, 'data_'), 'value_'):
            return
        if v is not None and text(v) == '' and not has(A, k):
            return
        if v is None or v01.unclear(v):
            raise Strange('a name not followed')
        raise Wrong('a member is called %s' % show(v))
    return judge(P, f, S, due)


def equal(P, f, S):
    """two values are the same exactly when all of one is in the other"""
    ps = [('obj', p['n'] or '#%d' % i) for i, p in enumerate(f['ps'])]
    kind = P.ptypes(f)[0].replace('const ', '').rstrip(' &')
    kind = kind[len(SO):] if kind.startswith(SO) else 'Value'
    visitor = f['n'] == 'operator()'
    I, outs = run(P, f)
    n = 0
    for o in outs:
        facts = known(o.st.facts)
        if facts is None:
            continue
        v = plain(o.val[1]) if o.val and o.val[0] == 'V' else None
        n += 1
        if v not in (C(0), C(1), TRUE, FALSE):
            if visitor and v and v[0] == 'eq' and ps[0] in v[1:]:
                continue
            S.unk('what is answered is not followed: %s' % short(v))
            continue
        yes = v in (C(1), TRUE)
        eqs = {True: [], False: []}
        for k, b in facts.items():
            k = k[2] if k[0] == 'forall' else k
            if k[0] == 'eq':
                eqs[b].append(k[1:])
            elif k[0] == 'T' and k[1][0] == 'call' and 'visit' in k[1][1]:
                eqs[b].append(('visit', k[1]))
        odd = any(x for x in eqs[True] + eqs[False] if x[0] != 'visit' and v01.unclear(x) and not visitor and kind != 'Value')

        def wrong(t):
            S.unk(t) if odd else S.bad(t)
        data = [('fld', p, 'data') for p in ps]
        if kind in ('Null', 'True', 'False') and not visitor:
            if not yes:
                wrong('two of a kind with one value are told apart')
            continue
        if not yes:
            if not eqs[False] and not any(k[0] != 'eq' and (k[0] != 'forall' or k[2][0] != 'eq' and not b) for k, b in facts.items()):
                wrong('two are told apart that are not asked whether they differ')
            continue
        if visitor:
            if not any(ps[0] in x for x in eqs[True]):
                wrong('two of a kind are taken for the same')
        elif kind in ('String', 'Number'):
            if not any(set(x) == set(data) for x in eqs[True]):
                wrong('two are taken for the same that are not asked whether they differ')
        elif kind == 'Value':
            if not any(x[0] != 'visit' and 'index' in repr(x) for x in eqs[True]):
                wrong('values of different kinds are taken for the same')
            if not any(x[0] == 'visit' for x in eqs[True]):
                wrong('values of one kind are taken for the same')
        else:
            none = any(k[0] == 'T' and k[1][0] == 'size' and not b for k, b in facts.items())
            if not any(set(x) == {('size', d) for d in data} for x in eqs[True]):
                wrong('one is taken for the same as a longer one')

            def both(x, *way):
                x = [y for y in x]
                for w in way:
                    if not all(y[0] == 'fld' and y[2] == w for y in x):
                        return False
                    x = [y[1] for y in x]
                return all(y[0] == 'elem' for y in x) and {y[1] for y in x} == set(data) and (kind == 'Object' or x[0][2] == x[1][2])
            if none or any(both(x) for x in eqs[True]) or any(both(x, 'first') for x in eqs[True]) and any(both(x, 'second') for x in eqs[True]):
                continue
            if any(both(x, 'first') for x in eqs[True]):
                wrong('the values of members are not compared')
            elif any(both(x, 'second') for x in eqs[True]):
                wrong('the names of members are not compared')
            else:
                wrong('the entries are not compared')
    return n


def once(P, f, S):
    """an entry is there once"""
    c, v = [('obj', p['n']) for p in f['ps']]
    l = ('fld', c, 'data')
    I, outs = run(P, f)
    n, seen = 0, set()
    for o in outs:
        facts = known(o.st.facts)
        if facts is None:
            continue
        n += 1
        is_ = lambda k: k[0] == 'eq' and v in k[1:] and any(x[:2] == ('elem', l) for x in k[1:])
        there = any(b and is_(a) for a, b in facts.items())
        none = any(a[0] == 'forall' and not b and is_(a[2]) for a, b in facts.items()) or facts.get(('T', ('size', l))) is False
        puts = [plain(e[2]) for e in o.st.ev if e[0] == 'push' and plain(e[1]) == l]
        if any(e[0] in ('erase', 'clear', 'insert') for e in o.st.ev):
            S.unk('the entries are changed otherwise')
        elif there:
            seen.add(True)
            if puts:
                S.bad('an entry that is there is added again')
        elif none:
            seen.add(False)
            if not puts:
                S.bad('an entry that is not there is not added')
            elif puts != [v]:
                S.bad('what is added is %s' % short(puts[0]))
        elif not any(a[0] in ('eq', 'forall') for a in facts) and puts:
            seen.add(False)
        else:
            S.unk('whether the entry is there is not asked')
    if n and seen == {False}:
        S.bad('an entry is added without looking for it')
    return n


def reduced(P, f, S):
    """no alternative is lost where nested ones are drawn together"""
    s = ('obj', f['ps'][0]['n'])
    I, outs = run(P, f)
    n = 0
    for o in outs:
        facts = known(o.st.facts)
        if facts is None or o.kind != 'ret':
            continue
        n += 1
        named = next((x[1] for k, b in facts.items() if b and k[0] == 'eq' and ('s', 'anyOf') in k[1:] for x in k[1:] if x[0] == 'fld' and x[2] == 'first'), None)
        writes = [e for e in o.st.ev if e[0] in ('store', 'assign', 'push', 'erase', 'insert', 'append') and mentions(plain(e[1]), s)
                  or e[0] == 'call' and e[1].startswith('std::variant') and e[1].endswith('operator=') and mentions(plain(e[2]), s)]
        if not writes:
            continue
        if named is None:
            S.unk('a schema is changed in a way not followed')
            continue
        src = ('fld', ('fld', ('fld', named, 'second'), 'as Array'), 'data')
        ls = [e[1] for e in o.st.ev if e[0] == 'loop' and v01.over(plain(e[1]['range'])) == src]
        if len(ls) != 1 or len(writes) != 1:
            S.unk('alternatives are drawn together in a way not followed')
            continue
        x = ('elem', src, ls[0]['ix'])
        for kind, fs, ev, _ in ls[0]['paths']:
            fs = known(fs)
            if fs is None:
                continue
            if kind not in ('norm', 'cont'):
                S.unk('alternatives are gone through in a loop left early')
                continue
            nested = fs.get(('T', ('nested', x)))
            puts = [plain(e[2]) for e in ev if e[0] in ('push', 'member')]
            inner = [e for e in ev if e[0] == 'loop']
            if not puts and not inner:
                S.bad('an alternative is left out')
            elif nested is False and puts and puts != [x] and not any(mentions(p, x) for p in puts):
                S.bad('an alternative is replaced')
            elif nested and inner and not any(e[0] in ('push', 'member') for e in inner[0][1]['paths'][0][2]):
                S.bad('nested alternatives are left out')
    return n


def shape(P, f):
    ts = [t.replace('const ', '').rstrip(' &') for t in P.ptypes(f)]
    k = next((refr.kind_of(t) for t in ts if refr.kind_of(t)), None)
    what = {'renderSchemaSpecific': 'schema', 'renderPropertySpecific': 'property'}.get(f['n'])
    return (what, k) if what and k and len(ts) == 3 else None


def check(R, P):
    R.rule('For each kind of element, every path of the functions that describe it in a JSON schema, as a type and as properties of an object, '
           'is followed down to the keys it puts into the schema, and held against what is due for the type attributes and the parts the path has found.')
    from front import loc
    from say import Say
    for u, g in P.gvars.items():
        if g.get('e') and g['e'].get('k') == 'str' and g.get('cx'):
            TEXTS['gv', u] = g['e']['v']
    for f in sorted(P.fns.values(), key=lambda f: (f['file'], f['line'])):
        if f.get('body') is None:
            continue
        w = None
        if f['file'].endswith('utils/so/Value.cc'):
            ts = P.ptypes(f)
            if f['n'] == 'operator==' and len(ts) == 2 or f['n'] == 'operator()' and len(ts) == 1 and 'same_equal' in f['q']:
                w = ('telling apart', '%s(%s)' % (f['n'], ts[0][:60]), lambda S: equal(P, f, S))
            elif f['n'] == 'emplace_unique' and 'so::Array' in ts[0]:
                w = ('telling apart', f['n'], lambda S: once(P, f, S))
        elif not f['file'].endswith(FILE):
            continue
        x = shape(P, f)
        if x:
            w = ('describing', '%s of %s' % x, lambda S: by_kind(P, f, S, *x))
        elif f['n'] in ('renderSchema', 'renderProperty'):
            w = ('handing on', f['n'], lambda S: handed_on(P, f, S, f['n'][6:].lower()))
        elif f['n'] == 'materialize':
            w = ('handing on', '%s/%d' % (f['n'], len(f['ps'])), lambda S: gathered(P, f, S))
        elif f['n'] == 'wrapNullable':
            w = ('handing on', f['n'], lambda S: null_allowed(P, f, S))
        elif f['n'] == 'flattenAnyOfsSpecific' and P.ptypes(f)[0].replace(' &', '') == SO + 'Object':
            w = ('handing on', f['n'], lambda S: reduced(P, f, S))
        elif f['n'] == 'renderPattern':
            w = ('naming', f['n'], lambda S: matches(P, f, S))
        elif f['n'] == 'key':
            w = ('naming', f['n'], lambda S: called(P, f, S))
        elif f['n'] in ('makeSchema', 'generateJsonSchema'):
            w = ('handing on', f['n'], lambda S: from_the_top(P, f, S))
        if w is None:
            continue
        R.seen(f)
        S = Say(R, f, w[1], RULE)
        try:
            k = w[2](S)
        except Budget:
            S.unk('too large to follow')
            k = 0
        R.ob(w[0], '%s %s (%d paths)' % (loc(f), w[1][:80], k), S.ok is True and k > 0)
    R.floor('describing', 26)
    R.floor('handing on', 5)
    R.floor('naming', 2)
    R.floor('telling apart', 9)

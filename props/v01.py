"""V01: the JSON value generated for a type is the one the type describes."""
import refr
import q01
from absint import Interp, Budget, C, NULL, TRUE, FALSE, EMPTY, St, at, read, write, fmt, decide, assume, mk_eq, mk_not, size_of, mentions
from front import loc, strip_targs
from say import Say

RULE = 'value-described'
SO = 'drafter::utils::so::'
FILE = 'refract/JsonValue.cc'
KINDS = ('Null', 'True', 'False', 'String', 'Number', 'Object', 'Array')
TERM = {'hasFixedTypeAttr', 'hasNullableTypeAttr', 'hasOptionalTypeAttr', 'inheritsFixed', 'definesValue', 'renderKey',
        'findFirstSample', 'findDefault', 'resolve', 'instantiate', 'instantiateEmpty'}
MAKES = {'renderValue', 'renderValueSpecific'}
ADDS = {'renderProperty': 'property', 'renderPropertySpecific': 'property', 'renderItem': 'item', 'renderItemSpecific': 'item'}


WIDTH = 4
IX = tuple(C(i) for i in range(WIDTH))


def bit(t, i):
    if t[0] == 'bits':
        return t[1 + i]
    return ('bit', t, C(i))


def tf(x):
    return TRUE if x == C(1) else FALSE if x == C(0) else x


def both(op, v, w):
    return ('bits',) + tuple(('bit' + op, bit(v, k), bit(w, k)) for k in range(WIDTH))


def make_hooks(P, me):
    H = refr.hooks(dispatch=True)
    inner, ictor = H['call'], H.get('ctor')

    def ctor(I, e, s, fr, l, args):
        q = e['q'].rsplit('::', 1)[0]
        if q.startswith('std::bitset') and not args:
            write(s, l, ('bits',) + (FALSE,) * WIDTH)
            return [s]
        if q.startswith('std::in_place_type_t') and e.get('ck') not in ('copy', 'move'):
            t = P.ty(e['t'])['s']
            m = [k for k in KINDS if '<' + SO + k + '>' in t]
            if m:
                write(s, l, ('rec', ('lit',), ((('fld', '#type'), ('s', SO + m[0])),)))
                return [s]
        if q in ('std::variant', 'mpark::variant') and len(args) == 1 and e.get('ck') not in ('copy', 'move'):
            write(s, l, I.val(s, args[0]))
            return [s]
        return ictor(I, e, s, fr, l, args) if ictor else None

    def call(I, e, b, s, fr, ob, args):
        if b is None:
            return None
        f = P.fns.get(e['f'])
        n = b.rsplit('::', 1)[-1]
        if b.startswith('std::bitset::reference::') and ob is not None:
            w = read(s, ob)
            if w[0] == 'bitref':
                v = read(s, w[1])
                if n == 'operator bool':
                    return [(s, ('V', bit(v, w[2])))]
                if n == 'operator=' and len(args) == 1:
                    x = I.val(s, args[0])
                    if x[0] == 'bitref':
                        x = bit(read(s, x[1]), x[2])
                    write(s, w[1], ('bits',) + tuple(tf(x) if k == w[2] else bit(v, k) for k in range(WIDTH)))
                    return [(s, ('L', ob))]
        elif b.startswith('std::bitset::') and ob is not None:
            v = read(s, ob)
            if n in ('operator|=', 'operator&=') and args:
                write(s, ob, both(n[8], v, I.val(s, args[0])))
                return [(s, ('L', ob))]
            if n == 'operator=':
                write(s, ob, I.val(s, args[0]))
                return [(s, ('L', ob))]
            i = I.val(s, args[0]) if args else None
            if n == 'operator[]' and i in IX and 'reference' in P.ty(e['t'])['s']:
                return [(s, ('V', ('bitref', ob, i[1])))]
            if n in ('test', 'operator[]') and i in IX:
                return [(s, ('V', bit(v, i[1])))]
            if n in ('set', 'reset') and (i is None or i in IX):
                x = TRUE if n == 'set' else FALSE
                if n == 'set' and len(args) > 1:
                    x = tf(I.val(s, args[1]))
                if i is None:
                    w = ('bits',) + (x,) * WIDTH
                else:
                    w = ('bits',) + tuple(x if C(k) == i else bit(v, k) for k in range(WIDTH))
                write(s, ob, w)
                return [(s, ('L', ob))]
        if b in ('std::operator|', 'std::operator&') and len(args) == 2 and 'bitset' in P.ty(e['t'])['s']:
            return [(s, ('V', both(b[-1], I.val(s, args[0]), I.val(s, args[1]))))]
        if b.startswith('drafter::utils::log::') and n == 'operator<<':
            return [(s, ('L', I.as_loc(s, args[0])))]
        if b == 'refract::visit' and len(args) == 2:
            v = I.val(s, args[1])
            q = P.ty(e['a'][1]['t'])['s'].replace('const ', '').rstrip(' &')
            x = I.as_loc(s, args[0])
            r = []
            for k in refr.kinds_here(s, x):
                g = [g for g in P.fns.values() if g['n'] == 'operator()' and g['file'] == me['file'] and strip_targs(g['q']) == q + '::operator()' and
                     g.get('body') is not None and [refr.kind_of(t) for t in P.ptypes(g)] == [k]]
                s2 = assume(s.copy(), mk_eq(('kind', x), refr.kc(k)), True)
                if len(g) != 1 or s2 is None or not I.may_inline(g[0], fr):
                    return inner(I, e, b, s, fr, ob, args)
                l = I.fresh('tmp')
                write(s2, l, v)
                r += I.invoke(g[0], s2, fr, l, [('L', x)])
            return r
        if n in MAKES and f is not None and len(args) == 2 and f['file'].endswith(FILE):
            return [(s, ('V', ('value of', I.as_loc(s, args[0]), I.val(s, args[1]))))]
        if n in ADDS and f is not None and len(args) == 3 and f['file'].endswith(FILE):
            s.emit(ADDS[n], I.as_loc(s, args[0]), I.as_loc(s, args[1]), I.val(s, args[2]))
            return [(s, ('V', ('void',)))]
        if n in TERM and len(args) == 1:
            return [(s, ('V', (n, I.as_loc(s, args[0]))))]
        if b == 'refract::dsd::Extend::merge' and ob is not None:
            v = ('merged', ob)
            s.facts[('T', v)] = True
            return [(s, ('V', v))]
        if n == 'emplace_unique' and len(args) in (2, 3) and f is not me:
            s.emit('member', I.as_loc(s, args[0]), *[I.val(s, a) for a in args[1:]])
            return [(s, ('V', ('void',)))]
        if n == 'get_if' and len(args) == 1 and e.get('ta'):
            k = e['ta'][0].replace('const ', '')
            if k.startswith(SO):
                v = I.val(s, args[0])
                c = ('eq', ('holds', read(s, at(v))), ('s', k[len(SO):]))
                r = []
                for x, w in ((True, ('addr', ('fld', read(s, at(v)), 'as ' + k[len(SO):]))), (False, NULL)):
                    s2 = assume(s.copy(), c, x)
                    if s2 is not None:
                        r.append((s2, ('V', w)))
                return r
        if b in ('std::move', 'std::copy') and len(args) == 3:
            a, z, d = [I.val(s, x) for x in args]
            if a[0] == z[0] == 'it' and d[0] == 'backins':
                s.emit('append all', d[1], a, z)
                return [(s, ('V', ('void',)))]
        return inner(I, e, b, s, fr, ob, args)
    H['call'], H['ctor'], H['typed'] = call, ctor, lambda q: q.startswith(SO)
    return H


def run(P, f):
    I = Interp(P, hooks=make_hooks(P, f), max_states=20000, max_depth=12)
    I.max_steps = 4000000
    return I, I.run(f)


# ---- reading what a path does ---------------------------------------------------------------------------

class Strange(Exception):
    pass


class Wrong(Exception):
    pass


class Split(Exception):
    def __init__(self, key):
        self.key = key


class Ask:
    fx = ()

    def __init__(self, facts, supposed):
        self.f, self.s = facts, supposed

    def key(self, k):
        if k in self.f:
            return self.f[k]
        if k in self.s:
            return self.s[k]
        raise Split(k)

    def true(self, t):
        if t in (TRUE, FALSE):
            return t == TRUE
        if t[0] == 'not':
            return not self.true(t[1])
        if t[0] == 'bit|':
            return self.true(t[1]) or self.true(t[2])
        if t[0] == 'bit&':
            return self.true(t[1]) and self.true(t[2])
        if t[0] in ('eq', 'lt'):
            return self.key(t)
        if t[0] == 'T':
            return self.key(t)
        return self.key(('T', t))

    def kind(self, l, k):
        for a, v in self.f.items():
            if a[0] == 'eq' and ('kind', l) in a[1:]:
                w = a[1] if a[2] == ('kind', l) else a[2]
                if w == ('s', 'kind:' + k):
                    return v
                if v:
                    return False
        return self.key(('eq', ('kind', l), ('s', 'kind:' + k)))

    def holds(self, v, k):
        for a, b in self.f.items():
            if a[0] == 'eq' and a[1][0] == 'holds' and of(self, a[1][1], v):
                if a[2] == ('s', k):
                    return b
        for a, b in self.f.items():
            if a[0] == 'eq' and a[1][0] == 'holds' and a[1][1][0] == 'value of' and a[2] == ('s', k):
                raise Wrong('it is %s that is mixed in, not %s' % (name(a[1][1]), name(v)))
        raise Strange('what the value is, is not asked')

    def some_entry(self, l):
        for a, v in self.f.items():
            if a[0] == 'forall' and a[2][0] == 'lt' and a[2][2] == ('size', l):
                continue
            if a[0] == 'lt' and a[1][0] == 'ix' and a[2] == ('size', l):
                return v
            if a == ('lt', C(0), ('size', l)):
                return v
        for a, v in self.f.items():
            if a[0] == 'forall' and a[2][0] == 'lt' and a[2][2] == ('size', l):
                return False
        if any(x[0] == 'for' and x[2][:2] == ('range', l) and x[3] and all(p[0] == 'ret' for p in x[3]) for x in self.fx):
            return False
        return self.some(l)

    def some(self, l):
        for k in (('T', ('size', l)), ('lt', C(0), ('size', l))):
            if k in self.f:
                return self.f[k]
        k = ('lt', ('size', l), C(1))
        if k in self.f:
            return not self.f[k]
        return self.key(('T', ('size', l)))


def plain(t):
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(plain(x) for x in t)
    if t[0] == 'at' and len(t) == 2 and t[1][0] == 'addr':
        return t[1][1]
    if t[0] == 'addr' and len(t) == 2 and t[1][0] == 'at':
        return t[1][1]
    if t[0] == 'ctor' and len(t) == 3 and t[1] in ('std::variant::(ctor)', 'mpark::variant::(ctor)'):
        return t[2]
    if t[0] == 'rec' and len(t) == 3 and isinstance(t[2], tuple):
        d = dict(x for x in t[2] if isinstance(x, tuple) and len(x) == 2)
        k = d.get(('fld', '#type'))
        if k and k[0] == 's' and k[1].startswith(SO):
            k = k[1][len(SO):]
            if k in ('Object', 'Array'):
                return ('so', k, t[1][1] if t[1][0] == 'fresh' else None, d.get(('fld', 'data'), EMPTY))
            return ('so', k, d.get(('fld', 'data')))
    return t


def known(fs):
    r = {}
    for k, v in fs.items():
        if isinstance(v, bool):
            if r.setdefault(plain(k), v) != v:
                return None
    return r


QUIET = {'downcast', 'finit', 'dtor', 'moved', 'movector', 'copyctor', 'upcast', 'own', 'temp', 'clear', 'null', 'released', 'reset'}


def logged(e):
    return e[0] == 'out' and mentions(e[1], ('gv',)) or any(isinstance(x, tuple) and 'instance_' in repr(x) for x in e[1:2])


def effects(evs):
    """what is added to objects and arrays, in order, with loops as loops"""
    r = []
    for e in evs:
        k = e[0]
        if k in ('property', 'item'):
            r.append((k, plain(e[1]), plain(e[2]), plain(e[3])))
        elif k == 'member':
            r.append((k, plain(e[1])) + tuple(plain(x) for x in e[2:]))
        elif k == 'push':
            r.append((k, plain(e[1]), plain(e[2])))
        elif k == 'append all':
            r.append((k, plain(e[1]), plain(e[2]), plain(e[3])))
        elif k == 'loop':
            n = e[1]
            ps = []
            for kind, fs, x, v in n['paths']:
                ps.append((kind, known(fs), effects(x)))
            r.append(('for', n['ix'], plain(n['range']), ps, n.get('alg')))
        elif k == 'call' and (e[1].endswith('::(ctor)') or e[1].startswith(('std::lock_guard', 'std::this_thread', 'std::time', 'std::put_time', 'localtime', 'std::localtime', 'time'))):
            pass
        elif k == 'store' and e[1][0] in ('lv', 'tmp') or k == 'store' and e[1][0] == 'fld' and e[1][1][0] in ('lv', 'tmp'):
            pass
        elif k in QUIET or k == 'out' or k == 'call' and 'instance_' in repr(e):
            pass
        elif k == 'insert' and len([x for x in e[2] if x != NULL]) == 3 and e[2][0] == ('it', e[1], ('size', e[1])) and e[2][1][0] == e[2][2][0] == 'it' and not bare(r):
            r.append(('append all', plain(e[1]), plain(e[2][1]), plain(e[2][2])))
        elif k in ('erase', 'remove', 'insert', 'store', 'assign'):
            raise Strange('it also does: %s' % k)
    return r


def bare(fx):
    """without loops that add nothing"""
    return [x for x in fx if x[0] != 'for' or any(bare(p[2]) for p in x[3])]


# ---- what is due ----------------------------------------------------------------------------------------

def own(A, e, o):
    b0, b1 = o
    return b0 or A.true(('hasFixedTypeAttr', e)), b1 or A.true(('hasNullableTypeAttr', e))


def flags(A, t):
    return tuple(A.true(bit(t, i)) for i in (0, 1))


def child(A, o, x):
    return o[0] and A.true(('inheritsFixed', x)), False


def has(A, e):
    return A.true(('fld', e, 'hasValue_'))


def alt(A, e, o):
    for n in ('findFirstSample', 'findDefault'):
        if A.true((n, e)):
            return ('value of', ('at', (n, e)), o)
    if o[1]:
        return ('so', 'Null', None)
    return None


def parts(e, n=None):
    return ('fld', ('fld', e, 'data_'), 'elements_')


def v_primitive(A, e, o):
    o = own(A, e, o)
    if has(A, e):
        return ('instantiate', ('fld', e, 'data_'))
    return alt(A, e, o) or ('instantiateEmpty', e)


def v_null(A, e, o):
    return ('so', 'Null', None)


def v_holder(A, e, o):
    d = ('fld', ('fld', e, 'data_'), 'data_')
    if has(A, e) and A.true(d):
        return ('value of', ('at', d), o)
    return ('so', 'Null', None)


def v_object(A, e, o):
    o = own(A, e, o)
    if not has(A, e):
        return alt(A, e, o) or ('so', 'Object', [])
    return ('so', 'Object', [('for', parts(e), lambda A, x: ('property', ('at', x), child(A, o, ('at', x))))])


def v_array(A, e, o):
    o = own(A, e, o)
    if not has(A, e):
        return alt(A, e, o) or ('so', 'Array', [])
    return ('so', 'Array', [('for', parts(e), lambda A, x: ('item', ('at', x), child(A, o, ('at', x))))])


def v_enum(A, e, o):
    o = own(A, e, o)
    if has(A, e):
        return ('value of', ('at', ('fld', ('fld', e, 'data_'), 'value_')), (o[0], False))
    r = alt(A, e, o)
    if r:
        return r
    at_ = ('fld', ('fld', e, 'attributes_'), 'elements')
    for k, v in A.f.items():
        if k[0] == 'eq' and v and ('s', 'enumerations') in k[1:]:
            x = k[1] if k[2][0] == 's' else k[2]
            if x[:2] == ('fld', x[1]) and x[2] == 'first' and x[1][:2] == ('elem', at_):
                l = ('at', ('fld', x[1], 'second'))
                if A.true(('fld', l, 'hasValue_')) and A.some_entry(parts(l)):
                    return ('first of', parts(l), o)
                return ('so', 'Null', None)
    if any(k[0] == 'forall' and not v and ('s', 'enumerations') in k[2][1:] for k, v in A.f.items()):
        return ('so', 'Null', None)
    if not any('enumerations' in repr(k) for k in A.f):
        raise Wrong('the enumerations are not looked at')
    raise Strange('the enumerations are looked up in a way not followed')


def v_extend(A, e, o):
    return ('value of', ('at', ('merged', ('fld', e, 'data_'))), o)


def v_ref(A, e, o):
    if A.true(('resolve', e)):
        return ('value of', ('at', ('resolve', e)), o)
    return ('so', 'Null', None)


VALUE = {'String': v_primitive, 'Number': v_primitive, 'Boolean': v_primitive, 'Member': v_null, 'Option': v_null, 'Select': v_null,
         'Null': v_null, 'Holder': v_holder, 'Object': v_object, 'Array': v_array, 'Enum': v_enum, 'Extend': v_extend, 'Ref': v_ref}


def p_none(A, e, o):
    return []


def p_holder(A, e, o):
    d = ('fld', ('fld', e, 'data_'), 'data_')
    return [('property', ('at', d), o)] if has(A, e) and A.true(d) else []


def p_member(A, e, o):
    o = own(A, e, o)
    d = ('fld', e, 'data_')
    k, v = [('fld', d, n) for n in ('key_', 'value_')]
    if not A.true(v):
        return []
    if A.true(('hasOptionalTypeAttr', e)) and not A.true(('definesValue', ('at', v))):
        return []
    name = ('renderKey', ('at', k))
    if not A.some(name):
        return []
    return [('member', name, ('value of', ('at', v), o))]


def p_ref(A, e, o):
    return [('property', ('at', ('resolve', e)), o)] if A.true(('resolve', e)) else []


def p_object(A, e, o):
    v = ('value of', e, o)
    return [('members of', v)] if A.holds(v, 'Object') else []


def p_extend(A, e, o):
    return [('property', ('at', ('merged', ('fld', e, 'data_'))), o)]


PROPERTY = {k: p_none for k in ('Array', 'Boolean', 'Enum', 'Null', 'Number', 'String', 'Option')}
PROPERTY.update(Holder=p_holder, Member=p_member, Ref=p_ref, Object=p_object, Extend=p_extend)


def i_value(A, e, o):
    return [('push', ('value of', e, child(A, o, e)))]


def i_primitive(A, e, o):
    o = own(A, e, o)
    return [('push', ('value of', e, child(A, o, e)))] if o[0] or A.true(('definesValue', e)) else []


def i_ref(A, e, o):
    if not A.true(('resolve', e)):
        return []
    l = ('at', ('resolve', e))
    if not A.kind(l, 'Array'):
        return []
    v = ('value of', l, o)
    return [('all of', v)] if A.holds(v, 'Array') else []


ITEM = {k: i_value for k in ('Array', 'Enum', 'Extend', 'Null', 'Object', 'Holder')}
ITEM.update({k: p_none for k in ('Member', 'Option', 'Select')})
ITEM.update({k: i_primitive for k in ('Number', 'String', 'Boolean')})
ITEM.update(Ref=i_ref)


# ---- the comparison -------------------------------------------------------------------------------------

def of(A, got, want):
    """the value of that element with those flags"""
    return got[0] == 'value of' and got[1] == want[1] and flags(A, got[2]) == want[2]


def short(t):
    return fmt(t)[:110] if isinstance(t, tuple) and t and isinstance(t[0], str) else str(t)[:110]


def name(v):
    if v[0] == 'value of':
        return 'the value of ' + short(v[1]) + (' as %s' % (v[2],) if isinstance(v[2], tuple) and len(v[2]) == 2 and isinstance(v[2][0], bool) else '')
    if v[0] == 'so':
        return v[1]
    return short(v)


def same(A, got, want, fx):
    """complaint about a value, or None"""
    k = want[0]
    if k == 'value of':
        if got[0] == 'value of' and got[1] == want[1]:
            a = flags(A, got[2])
            return None if a == want[2] else 'the value of %s is made as if %s' % (short(want[1]), said(a, want[2]))
        return 'it is %s, not %s' % (name(got), name(want))
    if k == 'first of':
        if got[0] == 'value of' and got[1][0] == 'at' and got[1][1][:2] == ('elem', want[1]):
            ix = got[1][1][2]
            first = ix == C(0) or any(x[0] == 'for' and x[1] == ix and x[3] and all(p[0] == 'ret' for p in x[3]) for x in fx)
            if not first:
                return 'it is not the first enumeration'
            a = flags(A, got[2])
            return None if a == want[2] else 'the first enumeration is made as if %s' % said(a, want[2])
        return 'it is %s, not the first enumeration' % name(got)
    if k == 'so':
        if got[0] != 'so' or got[1] != want[1]:
            return 'it is %s, not %s' % (name(got), want[1])
        if want[1] in ('Object', 'Array'):
            return listed(A, [x for x in bare(fx)], want[2], got[2])
        return None if want[2] is None or got[2] == want[2] or want[2] == ('s', '') and got[2] == EMPTY else 'it says %s' % short(got[2])
    return None if got == want else 'it is %s, not %s' % (name(got), name(want))


def said(a, b):
    r = []
    if a[0] != b[0]:
        r.append('fixed' if a[0] else 'not fixed')
    if a[1] != b[1]:
        r.append('nullable' if a[1] else 'not nullable')
    return ' and '.join(r)


def over(r):
    if r[0] == 'range' and r[2] == C(0) and r[3] == ('size', r[1]):
        return r[1]
    if r[0] == 'range' and r[2][0] == 'c' and r[3] == ('size', r[1]):
        raise Wrong('%s is gone over from entry %s' % (short(r[1]), r[2][1]))
    if r[0] == 'range' and r[2] == C(0) and r[3][0] == 'c':
        raise Wrong('%s is gone over to entry %s only' % (short(r[1]), r[3][1]))
    raise Strange('a loop over %s' % short(r))


def tell(x):
    if x[0] == 'for':
        return 'the entries of ' + short(x[2] if len(x) > 3 else x[1])
    return {'property': 'the properties of ', 'item': 'the item ', 'member': 'the member ', 'push': 'the entry ', 'append all': 'all of ',
            'members of': 'the members of ', 'all of': 'the entries of '}.get(x[0], x[0]) + short(x[2] if x[0] in ('property', 'item', 'member', 'push') and len(x) > 3 else x[1])


def listed(A, got, want, tgt):
    """complaint about what is added to an object or an array, or None"""
    if len(got) < len(want):
        return '%s is left out' % tell(want[len(got)])
    if len(got) > len(want):
        return '%s is added, which should not' % tell(got[len(want)])
    for g, w in zip(got, want):
        c = one(A, g, w, tgt)
        if c:
            return c
    return None


def one(A, g, w, tgt):
    if w[0] == 'for':
        if g[0] != 'for':
            return 'only %s is taken of all entries' % tell(g)
        l = over(g[2])
        if l != w[1]:
            return 'the entries of %s are taken, not of %s' % (short(l), short(w[1]))
        for kind, fs, body in g[3]:
            if fs is None:
                continue
            body = bare(body)
            if kind not in ('norm', 'cont'):
                if body:
                    raise Wrong('the entries after one are left out')
                raise Strange('a loop left early (%s)' % kind)
            if any(k in A.s and A.s[k] != v or k in A.f and A.f[k] != v for k, v in fs.items()):
                continue
            A2 = Ask({**A.f, **fs}, A.s)
            if not possible(A2, fs):
                continue
            c = listed(A2, body, [w[2](A2, ('elem', l, g[1]))], tgt)
            if c:
                return c
        return None
    if w[0] == 'members of':
        if g[0] == 'for':
            l = over(g[2])
            if not (l[0] == 'fld' and l[2] == 'data' and l[1][0] == 'fld' and l[1][2] == 'as Object' and of(A, l[1][1], w[1])):
                return 'the members of %s are taken' % short(l)
            x = ('elem', l, g[1])
            for kind, fs, body in g[3]:
                body = bare(body)
                if fs is not None and (kind not in ('norm', 'cont') or body not in ([('member', tgt, x)], [('member', tgt, ('fld', x, 'first'), ('fld', x, 'second'))])):
                    return 'a member of an object mixed in is left out or changed'
            return None
        return 'not all members of an object mixed in are taken'
    if w[0] == 'all of':
        def ok(l):
            return l[0] == 'fld' and l[2] == 'data' and l[1][0] == 'fld' and l[1][2] == 'as Array' and of(A, l[1][1], w[1])
        if g[0] == 'append all':
            l = g[2][1]
            if g[1] == ('fld', tgt, 'data') and ok(l) and g[2] == ('it', l, C(0)) and g[3] == ('it', l, ('size', l)):
                return None
            return 'not every entry of the array mixed in is taken'
        if g[0] == 'for':
            l = over(g[2])
            if ok(l) and all(fs is None or kind in ('norm', 'cont') and bare(body) == [('push', ('fld', tgt, 'data'), ('elem', l, g[1]))] for kind, fs, body in g[3]):
                return None
        return 'not every entry of the array mixed in is taken'
    if w[0] != g[0]:
        return '%s is added, not %s' % (tell(g), tell(w))
    if w[0] in ('property', 'item'):
        if g[1] != tgt:
            return '%s is added elsewhere' % tell(g)
        if g[2] != w[1]:
            return '%s is added, not that of %s' % (tell(g), short(w[1]))
        a = flags(A, g[3])
        return None if a == w[2] else '%s is made as if %s' % (short(w[1]), said(a, w[2]))
    if w[0] == 'member':
        if g[1] != tgt or len(g) != 4:
            return 'a member is added elsewhere'
        if g[2] != w[1]:
            return 'a member is called %s' % short(g[2])
        return same(A, g[3], w[2], [])
    if w[0] == 'push':
        if g[1] != ('fld', tgt, 'data'):
            return 'an entry is added elsewhere'
        return same(A, g[2], w[1], [])
    raise Strange('%s' % w[0])


def chosen(A, fx, e, o, tgt):
    """the first option that has entries, and all of them"""
    l = parts(e)
    loops = [x for x in fx if x[0] == 'for' and x[2][:2] == ('range', l)]
    if not loops:
        if bare(fx):
            raise Wrong('not all options are looked at')
        raise Strange('the options are looked through in a way not followed')
    for x in loops:
        over(x[2])
        op = ('at', ('elem', l, x[1]))
        for kind, fs, body in x[3]:
            if fs is None:
                continue
            A2 = Ask({**A.f, **fs}, A.s)
            A2 = Ask(fs, A.s)
            full = has(A2, op) and A2.some(parts(op))
            if kind in ('norm', 'cont') and full:
                return 'the options after the first one are taken as well' if bare(body) else 'an option with entries is passed over'
            if kind in ('ret', 'brk') and not full:
                return 'it stops at an option without entries'
    b = bare(fx)
    b = [x for x in b if x not in loops]
    taken = [x for x in b if x[0] == 'for']
    if len(taken) == 1 and len(b) == 1:
        m = over(taken[0][2])
        ixs = {x[1] for x in loops}
        if not any(m == parts(('at', ('elem', l, ix))) for ix in ixs):
            return 'the entries of %s are taken' % short(m)
        return one(A, taken[0], ('for', m, lambda A, x: ('property', ('at', x), o)), tgt)
    if not b:
        if any(k[0] == 'lt' and k[2] == ('size', l) and v and k[1] in {x[1] for x in loops} for k, v in A.f.items()):
            return 'the entries of the option are left out'
        return None
    return '%s is added' % tell(b[0])


def shape(P, f):
    """(what it makes, kind of element) of a rendering function"""
    ts = [t.replace('const ', '').rstrip(' &') for t in P.ptypes(f)]
    k = next((refr.kind_of(t) for t in ts if refr.kind_of(t)), None)
    what = {'renderValueSpecific': 'value', 'renderPropertySpecific': 'property', 'renderItemSpecific': 'item'}.get(f['n'])
    return (what, k) if what and k and len(ts) == (2 if what == 'value' else 3) else None


def possible(A, fs):
    """what a path found of a flag made of others agrees with these"""
    return all(A.true(k[1]) == v for k, v in fs.items() if k[0] == 'T' and k[1][0] in ('bit|', 'bit&'))


def judge(P, f, S, due):
    I, outs = run(P, f)
    n = 0
    for o in outs:
        facts = known(o.st.facts)
        if facts is None or any('null' in repr(k) and ('at', ('null',)) in sub(k) for k in facts) or o.kind == 'abort':
            continue
        if o.kind == 'throw':
            S.unk('it may raise')
            continue
        todo = [{}]
        while todo:
            sup = todo.pop()
            A = Ask(facts, sup)
            try:
                if not possible(A, facts):
                    continue
                A.fx = effects(o.st.ev)
                c = due(A, o, A.fx)
                n += 1
                if c:
                    S.bad(c)
            except Split as x:
                if len(sup) > 7:
                    S.unk('too much is open on a path')
                    continue
                todo += [{**sup, x.key: True}, {**sup, x.key: False}]
            except Wrong as x:
                S.bad(str(x))
            except Strange as x:
                S.unk(str(x))
    return n


def sub(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from sub(x)


def value_of(o):
    return plain(o.val[1]) if o.val and o.val[0] == 'V' else ('nothing',)


def unclear(v):
    return any(isinstance(x, tuple) and x and x[0] in ('call', 'hv', 'apply', 'u', 'out', 'free', 'other', 'ctor', 'agg') for x in sub(v))


def by_kind(P, f, S, what, k):
    ps = [('obj', p['n']) for p in f['ps']]
    tgt, e, opt = ps if what != 'value' else [None] + ps

    def due(A, o, fx):
        fl = flags(A, opt)
        if what == 'value':
            got = value_of(o)
            c = same(A, got, VALUE[k](A, e, fl), fx)
            if c and unclear(got):
                raise Strange(c)
            return c
        if what == 'property' and k == 'Select':
            return chosen(A, fx, e, fl, tgt)
        c = listed(A, bare(fx), (PROPERTY if what == 'property' else ITEM)[k](A, e, fl), tgt)
        if c and unclear(tuple(x for x in bare(fx))):
            raise Strange(c)
        return c
    return judge(P, f, S, due)


def handed_on(P, f, S, what):
    ps = [('obj', p['n']) for p in f['ps']]
    tgt, e, opt = ps if what != 'value' else [None] + ps
    kinds = set()

    def due(A, o, fx):
        k = next((w[1][5:] for a, v in A.f.items() if v and a[0] == 'eq' and ('kind', e) in a[1:] for w in a[1:] if w[0] == 's'), None)
        kinds.add(k)
        fl = flags(A, opt)
        if what == 'value':
            return same(A, value_of(o), ('value of', e, fl), fx)
        return listed(A, bare(fx), [(what, e, fl)], tgt)
    n = judge(P, f, S, due)
    if n and None not in kinds and len(kinds) < 13:
        S.bad('elements of some kinds are left out: %s' % ', '.join(sorted(set(refr.KINDS) - kinds)))
    return n


def basic(P, f, S):
    e = ('obj', f['ps'][0]['n'])
    t = P.ptypes(f)[0]

    def due(A, o, fx):
        if f['n'] == 'generateJsonValue':
            w = ('value of', e, (False, False))
        elif f['n'] == 'instantiate':
            if 'Boolean' in t:
                w = ('so', 'True' if A.true(('fld', e, 'data_')) else 'False', None)
            else:
                w = ('so', 'String' if 'String' in t else 'Number', ('fld', e, 'value_'))
        else:
            w = ('so', 'False', None) if 'Boolean' in t else ('so', 'String', ('s', '')) if 'String' in t else ('so', 'Number', ('s', '0'))
        return same(A, value_of(o), w, fx)
    return judge(P, f, S, due)


def uniquely(P, f, S):
    """a key is there once: the later value takes the place of the earlier"""
    ps = [('obj', p['n']) for p in f['ps']]
    l = ('fld', ps[0], 'data')
    k, v = ps[1:] if len(ps) == 3 else (('fld', ps[1], 'first'), ('fld', ps[1], 'second'))
    I, outs = run(P, f)
    n = 0
    seen = set()
    for o in outs:
        facts = known(o.st.facts)
        if facts is None:
            continue
        n += 1
        there = [x for a, b in facts.items() if b and a[0] == 'eq' and k in a[1:] for x in a[1:] if x[0] == 'fld' and x[2] == 'first' and x[1][:2] == ('elem', l)]
        none = any(a[0] == 'forall' and not b and a[2][0] == 'eq' and k in a[2][1:] for a, b in facts.items())
        puts = [plain(e[2]) for e in o.st.ev if e[0] == 'push' and plain(e[1]) == l]
        sets = [(plain(e[1]), plain(e[2])) for e in o.st.ev if e[0] in ('store', 'assign') and mentions(e[1], ps[0])]
        sets += [(plain(('at', e[2])), plain(e[3][0])) for e in o.st.ev if e[0] == 'call' and e[1].startswith('std::variant') and e[1].endswith('operator=') and mentions(e[2], ps[0])]
        if there:
            seen.add(True)
            if puts:
                S.bad('a key that is there is added again')
            elif sets != [(('fld', there[0][1], 'second'), v)]:
                if not sets:
                    S.bad('the later value of a key is dropped')
                else:
                    S.unk('what is set is not followed: %s' % short(sets[0]))
        elif none or facts.get(('T', ('size', l))) is False:
            seen.add(False)
            d = dict(x for x in puts[0][2]) if len(puts) == 1 and puts[0][0] == 'rec' else None
            if not puts:
                S.bad('a key that is not there is not added')
            elif puts != [ps[-1]] and (d is None or d.get(('fld', 'first')) != k or d.get(('fld', 'second')) != v):
                S.bad('what is added is %s' % short(puts[0]))
        else:
            part = [a[2] if a[0] == 'forall' else a for a in facts if a[0] in ('eq', 'forall')]
            if any(a[0] == 'eq' and ('size', k) in a[1:] for a in part):
                S.bad('keys are told apart by their length')
            else:
                S.unk('whether the key is there is not asked')
    if n and seen == {False}:
        S.bad('a key is added without looking for it')
    return n


def check(R, P):
    R.rule('For each kind of element, every path of the functions that render it as a value, as properties of an object and as an item '
           'of an array is followed down to the JSON value it makes or adds, and held against what is due: the value an element has, '
           'else its first sample, its default, null where it is nullable, else what its kind gives; all members and items in order; '
           'flags handed on as they are inherited.')
    done = set()
    for f in sorted(P.fns.values(), key=lambda f: (f['file'], f['line'])):
        if f.get('body') is None:
            continue
        w = None
        if f['file'].endswith(FILE):
            x = shape(P, f)
            if x:
                w = ('rendering', '%s of %s' % x, lambda S: by_kind(P, f, S, *x))
            elif f['n'] in ('renderValue', 'renderProperty', 'renderItem'):
                w = ('handing on', f['n'], lambda S: handed_on(P, f, S, f['n'][6:].lower()))
            elif f['n'] == 'generateJsonValue':
                w = ('basic value', f['n'], lambda S: basic(P, f, S))
        elif f['file'].endswith('refract/JsonUtils.cc') and f['n'] in ('instantiate', 'instantiateEmpty'):
            w = ('basic value', '%s(%s)' % (f['n'], P.ptypes(f)[0]), lambda S: basic(P, f, S))
        elif f['n'] == 'emplace_unique' and 'utils/so/Value' in f['file'] and 'so::Object' in P.ptypes(f)[0]:
            w = ('unique key', '%s(%s)' % (f['n'], ', '.join(P.ptypes(f))[-60:]), lambda S: uniquely(P, f, S))
        if w is None:
            continue
        R.seen(f)
        S = Say(R, f, w[1], RULE)
        try:
            k = w[2](S)
        except Budget:
            S.unk('too large to follow')
            k = 0
        R.ob(w[0], '%s %s (%d paths)' % (loc(f), w[1][:80], k), S.ok is True and k > 0)
    R.floor('rendering', 39)
    R.floor('handing on', 3)
    R.floor('basic value', 7)
    R.floor('unique key', 2)

"""Q01: looking for a part finds it, and only it; going over an element meets every part."""
import refr
from absint import (Interp, Budget, C, NULL, TRUE, FALSE, EMPTY, St, at, read, write, fmt, decide, assume, mk_eq, mk_not,
                    size_of, mentions, flat_events)
from front import loc
from refr import kc, KINDS
from seqv import FactsOnly
from say import Say
from spec import same, odd

RULE = 'found-and-only-that'
IL = 'refract::InfoElements'
E, THIS = ('obj', 'e'), ('obj', 'this')
CV = 'refract::ComparableVisitor'
LISTS = ('Array', 'Object', 'Option', 'Extend', 'Select')
OPAQUE = {'refract::Element::content', 'refract::Element::visit', 'refract::IElement::content', 'refract::IElement::visit',
          'refract::Visitor::visit', 'refract::IVisitor::visit', 'refract::IApply::visit'}
VALUED = ('String', 'Number', 'Boolean')


def check(R, P):
    R.rule('Each lookup is followed on all its paths and what a path answers is held against what the element has: '
           'the entry of that very name, of that very kind, the first sample, the default, the own value before '
           'both. Where a path has not asked what the answer turns on, both possibilities are held against it. A list is '
           'searched when each step of the search over the whole of it turns down an entry that does not fit.')
    R.rule('Going over an element is followed for each kind and each strategy: the element is handed on once, before '
           'its parts; every part that is there is entered, in order, the key before the value; the strategy that '
           'stays on the first level counts its level up before and down after.')
    lookups(R, P)
    comparing(R, P)
    iterating(R, P)
    filtering(R, P)
    R.floor('lookup', 15)
    R.floor('going over a kind', 26)
    R.floor('selection of a kind', 13)
    R.floor('comparison of a kind', 13)


# ---- the decision trees ---------------------------------------------------------------------------------

class Any:
    """is there an entry of the list that fits; then(pointer) when there is, the first such"""

    def __init__(self, L, fits, then, els):
        self.L, self.fits, self.then, self.els = L, fits, then, els


def If(a, t, e):
    return ('if', a, t, e)


def Val(v):
    return ('val', v)


def fld(l, *names):
    for n in names:
        l = ('fld', l, n)
    return l


def entry(e, where, key, some, none):
    A = fld(e, where, 'elements')
    return entry_of(A, key, some, none)


def entry_of(A, key, some, none):
    return If(mk_eq(('find', A, key), size_of(A)), none, some(('fld', ('elem', A, ('find', A, key)), 'second')))


def as_kind(p, k, some, none):
    return If(('T', p), If(mk_eq(('kind', at(p)), kc(k)), some, none), none)


def valued(e, yes, no):
    return If(('T', fld(e, 'hasValue_')), yes, no)


def sample(e, k, some, none):
    def first(p):
        L = fld(at(p), 'data_', 'elements_')
        x = ('elem', L, C(0))
        return as_kind(p, 'Array', If(('T', size_of(L)), as_kind(x, k, some(x), none), none), none)
    return entry(e, 'attributes_', ('s', 'samples'), first, none)


def default(e, k, some, none):
    return entry(e, 'attributes_', ('s', 'default'), lambda p: as_kind(p, k, some(p), none), none)


def type_attribute(e, name, yes, no):
    def fits(st, x):
        return both(lambda: decide(st, x), lambda: decide(st, mk_eq(('kind', at(x)), kc('String'))),
                    lambda: decide(st, mk_eq(fld(at(x), 'data_', 'value_'), name)))
    return entry(e, 'attributes_', ('s', 'typeAttributes'),
                 lambda p: as_kind(p, 'Array', Any(fld(at(p), 'data_', 'elements_'), fits, lambda x: yes, no), no), no)


def both(*qs):
    r = True
    for q in qs:
        d = q()
        if d is False:
            return False
        if d is None:
            r = None
    return r


def value_of(e, k):
    me = ('addr', e) if e[0] != 'at' else e[1]
    dflt = default(e, k, Val, type_attribute(e, ('s', 'nullable'), Val(NULL), Val(me)))
    return valued(e, Val(me), sample(e, k, Val, dflt))


def enum_value(e):
    v = fld(e, 'data_', 'value_')
    end = valued(e, Val(v), Val(NULL))

    def items(p):
        L = fld(at(p), 'data_', 'elements_')

        def fits(st, x):
            there = decide(st, x)
            if there is False:
                return False
            isenum = decide(st, mk_eq(('kind', at(x)), kc('Enum')))
            deep = decide(st, ('T', ('enumval', at(x))))
            own = decide(st, ('T', fld(at(x), 'hasValue_')))
            r = own if isenum is False else (True if isenum and deep else (own if isenum and deep is False else (
                False if own is False and deep is False else True if own and isenum is not None else None)))
            return r if there else (False if r is False else None)

        def then(x):
            own = Val(x)
            return If(mk_eq(('kind', at(x)), kc('Enum')), If(('T', ('enumval', at(x))), Val(('enumval', at(x))), own), own)
        return as_kind(p, 'Array', valued(at(p), Any(L, fits, then, end), end), end)
    rest = entry(e, 'attributes_', ('s', 'enumerations'), items, end)
    own = valued(e, If(('T', v), Val(v), rest), rest)
    dflt = default(e, 'Enum', lambda p: Val(('enumval', at(p))), own)
    return sample(e, 'Enum', lambda p: Val(('enumval', at(p))), dflt)


def key_string(e):
    k = fld(e, 'data_', 'key_')
    none = Val(('s', ''))
    m = ('merged', at(k))
    txt = fld(at(m), 'data_', 'value_')

    def text(st, leaf_tree):
        return leaf_tree
    v = value_then(at(m), 'String', lambda p: If(('T', p), valued(at(p), Val(fld(at(p), 'data_', 'value_')), none), none))
    merged = as_kind(m, 'String', valued(at(m), If(('T', size_of(txt)), Val(txt), v), v), none)
    return If(('T', k), valued(at(k), If(mk_eq(('kind', at(k)), kc('String')), Val(fld(at(k), 'data_', 'value_')),
              If(mk_eq(('kind', at(k)), kc('Extend')), merged, none)), none), none)


def value_then(e, k, cont):
    """the tree of the value of an element, gone on with"""
    me = ('addr', e) if e[0] != 'at' else e[1]
    return valued(e, cont(me), sample(e, k, cont, default(e, k, cont, type_attribute(e, ('s', 'nullable'), cont(NULL), cont(me)))))


# ---- a path against a tree ------------------------------------------------------------------------------

def loops_of(st):
    def go(ev):
        for e in ev:
            if e[0] == 'loop':
                yield e[1]
                for p in e[1]['paths']:
                    yield from go(p[2])
    return list(go(st.ev))


def merge(base, facts):
    d = dict(base)
    d.update(facts)
    return FactsOnly(d)


def searched(st, L, fits):
    """True with the position when an entry is known to fit, False when the whole list is known not to hold one, or None"""
    for a, v in list(st.facts.items()):
        if a[0] == 'lt' and v and a[2] == size_of(L):
            x = ('elem', L, a[1])
            if fits(st, x) is True:
                return True, x
        if a[0] == 'eq' and not v and size_of(L) in a[1:]:
            ix = a[2] if a[1] == size_of(L) else a[1]
            x = ('elem', L, ix)
            if ix != C(0) and fits(st, x) is True:
                return True, x
    if decide(st, ('T', size_of(L))) is False:
        return False, None
    for info in loops_of(st):
        r = info['range']
        if r is None or r[1] != L or r[2] != C(0) or r[3] != size_of(L):
            continue
        if not st.facts.get(('forall', info['ix'], ('lt', info['ix'], size_of(L)))):
            continue
        x = ('elem', L, info['ix'])
        bad = False
        for kind, facts, ev, val in info['paths']:
            if kind not in ('norm', 'cont'):
                continue
            w = fits(merge(st.facts, facts), x)
            if w is None:
                st.facts[('doubt', L)] = True
            if w is not False:
                bad = True
        if not bad:
            return False, None
    fs = {}
    for a, v in st.facts.items():
        if a[0] == 'forall':
            fs.setdefault(a[1], {})[a[2]] = v
    for ix, d in fs.items():
        if d.get(('lt', ix, size_of(L))) and fits(merge(st.facts, d), ('elem', L, ix)) is False:
            return False, None
    return None, None


def leaves(st, tree):
    if isinstance(tree, Any):
        d, x = searched(st, tree.L, tree.fits)
        if d is not False:
            yield from leaves(st, tree.then(x if x is not None else ('elem', tree.L, ('some',))))
        if d is not True:
            yield from leaves(st, tree.els)
        return
    if tree[0] == 'val':
        yield st, tree[1]
        return
    _, atom, t, e = tree
    d = decide(st, atom)
    if d is not False:
        s = st if d else assume(st.copy(), atom, True)
        if s is not None:
            yield from leaves(s, t)
    if d is not True:
        s = st if d is False else assume(st.copy(), atom, False)
        if s is not None:
            yield from leaves(s, e)


def first_hit(st):
    """an entry compared by hand is the entry that find answers: positions renamed, 'absent' read from whole searches"""
    hits = {}
    for a, v in st.facts.items():
        if a[0] == 'eq' and v:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 'fld' and x[2] == 'first' and x[1][0] == 'elem' and x[1][2][0] == 'ix':
                    hits[x[1][2]] = (x[1][1], y)
    return hits


def rename(t, sub):
    if t in sub:
        return sub[t]
    if isinstance(t, tuple):
        return tuple(rename(x, sub) for x in t)
    return t


def normal(o, v):
    """state and value with searches by hand written as find"""
    st = o.st
    hits = first_hit(st)
    sub = {ix: ('find', A, k) for ix, (A, k) in hits.items()}
    new = {}
    for a, val in st.facts.items():
        b = rename(a, sub) if sub else a
        new[b] = val
    for ix, (A, k) in hits.items():
        new[mk_eq(('find', rename(A, sub), k), size_of(rename(A, sub)))] = False
    absent = set()
    for info in loops_of(st):
        r = info['range']
        if r is None or r[2] != C(0) or r[1] is None or r[3] != size_of(r[1]) or info['ix'] in sub:
            continue
        ks = None
        for kind, facts, ev, val in info['paths']:
            if kind not in ('norm', 'cont'):
                continue
            no = set()
            for a, x in facts.items():
                if a[0] == 'eq' and not x:
                    for p, q in ((a[1], a[2]), (a[2], a[1])):
                        if p == ('fld', ('elem', r[1], info['ix']), 'first'):
                            no.add(q)
            ks = no if ks is None else ks & no
        for k in ks or ():
            absent.add((r[1], k))
    for a, x in st.facts.items():
        if a[0] == 'forall' and not x and a[2][0] == 'eq':
            for p, q in ((a[2][1], a[2][2]), (a[2][2], a[2][1])):
                if p[0] == 'fld' and p[2] == 'first' and p[1][0] == 'elem' and p[1][2] == a[1] and \
                        st.facts.get(('forall', a[1], ('lt', a[1], size_of(p[1][1])))):
                    absent.add((p[1][1], q))
    for A, k in absent:
        new[mk_eq(('find', rename(A, sub), k), size_of(rename(A, sub)))] = True
    s = st.copy()
    s.facts = new
    return s, (rename(v, sub) if v is not None else None)


def strange(st):
    return [a for a in st.facts if a[0] not in ('live',) and odd(a)]


def known(v):
    return v


def against(R, P, f, tree, what, hooks, args=None, st=None, kind='lookup', label='', pick=None, skip=None):
    R.seen(f)
    say = Say(R, f, what, RULE)
    I = Interp(P, hooks=hooks, max_states=3000, max_depth=14)
    try:
        outs = I.run(f, THIS, args, st)
    except Budget:
        say.unk('too many paths')
        outs = []
    n = 0
    for o in outs:
        if skip is not None and skip(o):
            continue
        n += 1
        if o.kind == 'throw':
            say.unk('raises')
            continue
        v = pick(I, o) if pick is not None else (I.val(o.st, o.val) if o.val is not None else None)
        if v is None:
            say.unk('answers nothing')
            continue
        s0, v = normal(o, v)
        for s, w in leaves(s0, tree):
            ok = same(s, v, w)
            if ok is True:
                continue
            if decide(s, ('T', w)) is False and v == NULL:
                continue
            cond = [('' if b else 'not ') + fmt(a)[-70:] for a, b in s.facts.items() if s0.facts.get(a) != b and a[0] != 'live']
            text = 'answers %s, not %s%s' % (short(v), short(w), ' when ' + ' and '.join(cond[:4]) if cond else '')
            if ok is None or strange(s0) or odd(v) or any(a[0] == 'doubt' for a in s.facts):
                say.unk(text)
            else:
                say.bad(text)
    if not outs:
        say.unk('no path')
    R.ob(kind, '%s %s %s (%d paths)' % (loc(f), f['q'][:90], label, n), say.ok is True)


def short(v):
    t = fmt(v)
    return t if len(t) < 110 else '…' + t[-105:]


# ---- what the vocabulary of lookups means ---------------------------------------------------------------

def make_hooks(P, enum_rec=True, cmp=False):
    H = refr.hooks(dispatch=True)
    inner = H['call']

    def ctor(I, e, s, fr, l, args):
        if e['q'].startswith('refract::Visitor::') and len(args) == 1 and e.get('ck') not in ('copy', 'move'):
            t = refr.type_of_arg(I, e, 0)
            if t == CV:
                write(s, ('fld', l, 'functor'), ('cvof', I.as_loc(s, args[0])))
                return [s]
        return None

    def call(I, e, b, s, fr, ob, args):
        f = P.fns.get(e['f'])
        if ob is not None and f is not None and f.get('cls') == IL and f['n'] == 'find' and len(args) == 1:
            L = fld(ob, 'elements')
            return [(s, ('V', ('it', L, ('find', read(s, L), I.val(s, args[0])))))]
        if enum_rec and f is not None and f['n'] == 'operator()' and (f.get('cls') or '').startswith('refract::GetValue<') and \
                len(args) == 1 and refr.kind_of(P.ty(f['ps'][0]['t'])['s']) == 'Enum':
            return [(s, ('V', ('enumval', I.as_loc(s, args[0]))))]
        if b.endswith('Extend::merge') and ob is not None and not args:
            x = ob
            if x[0] == 'fld' and x[2] == 'data_':
                return [(s, ('V', ('merged', x[1])))]
        if b in ('refract::IElement::content', 'refract::IElement::visit', 'refract::VisitBy') and args:
            x, a = (ob, args[0]) if ob is not None else (I.as_loc(s, args[0]), args[1])
            vl = I.as_loc(s, a)
            w = read(s, ('fld', vl, 'functor'))
            c = w[1] if w[0] == 'cvof' else vl if b == 'refract::VisitBy' and refr.type_of_arg(I, e, 1) == CV else None
            if c is not None:
                write(s, ('fld', c, 'result'), ('T', ('cmp', x, read(s, ('fld', c, 'compare')), read(s, ('fld', c, 'compare_to')))))
                return [(s, ('V', ('void',)))]
        return inner(I, e, b, s, fr, ob, args)
    H['call'], H['ctor'] = call, ctor
    return H


def ptype(P, f, i=0):
    return P.ty(f['ps'][i]['t'])['s'].replace('const ', '').rstrip('& ').strip()


def param(f, i=0):
    return ('obj', f['ps'][i]['n'])


def live(P, q, n):
    return [f for f in P.named(q) if f.get('body') is not None and len(f['ps']) == n]


def lookups(R, P):
    H = make_hooks(P)

    def each(q, n, tree, what, filt=None):
        fs = [f for f in live(P, q, n) if filt is None or filt(f)]
        if not fs:
            R.lose(q)
        for f in fs:
            t = tree(f)
            if t is not None:
                against(R, P, f, t, what, H, label=ptype(P, f) if f['ps'] else '')

    def k_of(f):
        return refr.kind_of(ptype(P, f))

    each('refract::GetDescription', 1,
         lambda f: entry(param(f), 'meta_', ('s', 'description'), lambda p: as_kind(p, 'String', Val(p), Val(NULL)), Val(NULL)),
         'the description of an element')
    each('refract::GetKeyAsString', 1, lambda f: key_string(param(f)), 'the key of a member as text')
    each('refract::HasTypeAttribute', 2, lambda f: type_attribute(param(f), param(f, 1), Val(TRUE), Val(FALSE)),
         'a type attribute')
    each('refract::IsVariableProperty', 1, lambda f: variable(param(f)), 'the mark of a variable property')
    each('refract::GetDefault', 1, lambda f: default(param(f), k_of(f), Val, Val(NULL)) if k_of(f) else None, 'the default')
    each('refract::GetSample', 1, lambda f: sample(param(f), k_of(f), Val, Val(NULL)) if k_of(f) else None, 'the first sample')
    each('refract::IsLiteral', 1, lambda f: literal(param(f)), 'whether an element is a literal')
    each('refract::FindMemberByKey', 2, lambda f: member(param(f), param(f, 1)), 'the member of a key')

    def collection(f):
        k = refr.kind_of(P.ty(f['ret'])['s'])
        A = fld(param(f), 'elements')
        return entry_of(A, param(f, 1), lambda p: as_kind(p, k, Val(p), Val(NULL)), Val(NULL)) if k else None
    each('refract::FindCollectionMemberValue', 2, collection, 'the entry of a collection')
    seen = 0
    for f in P.fns.values():
        c = f.get('cls') or ''
        if not c.startswith('refract::GetValue<') or f.get('body') is None or len(f['ps']) != 1:
            continue
        k = k_of(f)
        if f['n'] == 'operator()' and k:
            seen += 1
            if k == 'Enum':
                against(R, P, f, enum_value(param(f)), 'the value of an enumeration', H)
            else:
                against(R, P, f, value_of(param(f), k), 'the value of an element', H)
        elif f['n'] == 'GetEnumerations' and k == 'Enum':
            against(R, P, f, entry(param(f), 'attributes_', ('s', 'enumerations'),
                                   lambda p: as_kind(p, 'Array', Val(p), Val(NULL)), Val(NULL)), 'the enumerations', H)
    if not seen:
        R.lose('refract::GetValue')


def variable(e):
    return entry(e, 'attributes_', ('s', 'variable'),
                 lambda p: as_kind(p, 'Boolean', If(('T', fld(at(p), 'data_', 'data_')), Val(TRUE), Val(FALSE)), Val(FALSE)),
                 Val(FALSE))


def literal(e):
    fixed = type_attribute(e, ('s', 'fixed'), Val(TRUE), Val(FALSE))
    t = fixed
    for k in VALUED:
        t = If(mk_eq(('kind', e), kc(k)), Val(TRUE), t)
    return If(mk_eq(('kind', e), kc('Null')), Val(FALSE), valued(e, t, fixed))


def member(e, name):
    L = fld(e, 'data_', 'elements_')

    def fits(st, x):
        return decide(st, ('T', ('cmp', at(x), C(0), name)))
    return Any(L, fits, Val, Val(NULL))


# ---- comparing --------------------------------------------------------------------------------------------

def comparing(R, P):
    H = make_hooks(P)
    want = [x for x in P.by_class(CV) if x['n'] == 'operator()' and x.get('body') is not None and len(x['ps']) == 1]
    res, txt = fld(THIS, 'result'), fld(THIS, 'compare_to')
    if not want:
        R.lose(CV)
    for f in want:
        k = refr.kind_of(ptype(P, f))
        if k is None:
            continue
        e = param(f)
        for mode, name in ((0, 'key'), (1, 'value')):
            st = St()
            write(st, fld(THIS, 'compare'), C(mode))
            old = Val(res)
            if k == 'Member':
                p = fld(e, 'data_', 'key_' if mode == 0 else 'value_')
                v = ('T', ('cmp', at(p), C(1), txt))
                tree = If(('T', p), If(v, Val(TRUE), Val(FALSE)), Val(FALSE))
            elif mode == 0:
                tree = old
            elif k == 'String':
                a = mk_eq(txt, fld(e, 'data_', 'value_'))
                tree = If(a, Val(TRUE), Val(FALSE))
            else:
                tree = Val(FALSE)
            against(R, P, f, tree, 'comparison with the %s' % name, H, st=st, kind='comparison of a kind', label=k,
                    pick=lambda I, o: read(o.st, res))


# ---- going over -------------------------------------------------------------------------------------------

def args_loc(a, raw):
    return raw[1] if raw and raw[0] == 'L' else a


def steps(ev, facts=None):
    """('visit'|'content', obj, arg) | ('level', value) | ('over', info, [(kind, facts, steps)])"""
    out = []
    for e in ev:
        if e[0] == 'call':
            n = e[1].rsplit('::', 1)[-1]
            if e[1] in ('refract::IApply::visit', 'refract::IElement::content', 'refract::IElement::visit') or \
                    n in ('visit', 'content') and e[1].startswith('refract::'):
                out.append((n, at(e[2]) if e[2] is not None else None, [args_loc(a, w) for a, w in zip(e[3], e[7])] if len(e) > 7 else e[3], None))
        elif e[0] in ('store', 'incr') and e[1][0] == 'fld' and e[1][2] == 'level':
            out.append(('level', e[1], e[2]))
        elif e[0] == 'loop':
            ps = [(k, f, steps(x)) for k, f, x, _ in e[1]['paths']]
            if any(s for _, _, s in ps):
                out.append(('over', e[1], ps))
        elif e[0] == 'store' and e[1][0] in ('fld',) and e[1][1] in (THIS,):
            out.append(('kept', e[1], e[2]))
    return out


def iterating(R, P):
    fs = [f for f in P.fns.values() if f['n'] == 'operator()' and f.get('body') is not None and len(f['ps']) == 1 and
          (f.get('cls') or '').startswith('refract::Iterate<') and (f.get('cls') or '').endswith('>::Impl')]
    if not fs:
        R.lose('refract::Iterate')
    strategies = {}
    for f in fs:
        s = f['cls'][len('refract::Iterate<'):-len('>::Impl')].replace('refract::', '')
        strategies.setdefault(s, []).append(f)
    for s in ('Recursive', 'Children'):
        if s not in strategies:
            R.lose('refract::Iterate<%s>' % s)
    for s, fs in sorted(strategies.items()):
        for f in sorted(fs, key=lambda f: f['q'] + ptype(P, f)):
            k = refr.kind_of(ptype(P, f))
            if k is None:
                entering(R, P, f)
            elif s == 'Recursive':
                over(R, P, f, k, None)
            elif s == 'Children':
                over(R, P, f, k, 0)
                over(R, P, f, k, 1)
    begins(R, P)


def run(P, f, st=None, args=None):
    I = Interp(P, hooks=refr.hooks(), max_states=2000, max_depth=14, noinline=OPAQUE)
    return I, I.run(f, THIS, args, st)


def is_visitor(v):
    """the value or place stands for the visitor the walk was set up with"""
    t = fld(THIS, 'iterator')
    return bool(v) and mentions(v[0], t)


def entering(R, P, f):
    R.seen(f)
    say = Say(R, f, 'any element', RULE)
    e = param(f)
    try:
        _, outs = run(P, f)
    except Budget:
        say.unk('too many paths')
        outs = []
    for o in outs:
        got = steps(o.st.ev)
        if got != [] and got[0][0] == 'content' and len(got) == 1 and got[0][1] == e and is_visitor(got[0][2]):
            continue
        if o.kind == 'throw':
            say.unk('raises')
        elif not got or any(g[0] == 'content' and g[1] != e for g in got) or sum(g[0] == 'content' for g in got) > 1:
            say.bad('the element is not entered once with the visitor of the walk')
        else:
            say.unk('what happens to the element is not understood')
    R.ob('entering', '%s %s' % (loc(f), f['q'][:90]), say.ok is True)


def over(R, P, f, k, level):
    R.seen(f)
    e = param(f)
    what = 'going over %s%s' % (k, '' if level is None else ', level %d' % level)
    say = Say(R, f, what, RULE)
    st = St()
    ap = fld(THIS, 'apply')
    lv = ('fld', at(fld(THIS, 'strategy')), 'level')
    if level is not None:
        write(st, lv, C(level))
    try:
        I, outs = run(P, f, st)
    except Budget:
        say.unk('too many paths')
        outs = []
    for o in outs:
        if decide(o.st, ap) is False:
            if steps(o.st.ev):
                say.bad('something is handed on although there is no functor')
            continue
        if o.kind == 'throw':
            say.unk('raises')
            continue
        got = steps(o.st.ev)
        lvl = level
        i = 0
        visit_due = level is None or level == 1
        down = k in LISTS + ('Member',) if level is None else (k in LISTS and level == 0)
        has = decide(o.st, fld(e, 'hasValue_'))
        parts = []
        for g in got:
            if g[0] == 'level':
                v = g[2]
                if v[0] != 'c':
                    say.unk('the level is not a number that is known')
                    break
                lvl = v[1]
            elif g[0] == 'visit':
                if g[1] == at(ap) and g[2] and loc_of(g[2][0]) == e:
                    if not visit_due:
                        say.bad('the element is handed on, twice or where it is not due')
                    elif parts:
                        say.bad('the parts are entered before the element is handed on')
                    visit_due = False
                else:
                    say.bad('something other than the element is handed on')
            elif g[0] == 'content':
                parts.append((g, None, lvl))
            elif g[0] == 'over':
                parts.append((g, g[1], lvl))
        if visit_due:
            say.bad('the element is not handed on')
        if lvl != level:
            say.bad('the level is left at %s, not %s' % (lvl, level))
        if level is not None and any(x[2] != level + 1 for x in parts):
            say.bad('parts are entered on the level of the element')
        if not down:
            if parts:
                say.bad('parts are entered where there are none to enter')
            continue
        if has is False and not parts:
            continue
        if k == 'Member':
            pair(say, o, e, parts)
        else:
            children(say, o, e, parts)
    R.ob('going over a kind', '%s %s (%d paths)' % (loc(f), what, len(outs)), say.ok is True and bool(outs))


def loc_of(v):
    return v[1] if v[0] == 'L' else v


def pair(say, o, e, parts):
    want = []
    for n in ('key_', 'value_'):
        p = fld(e, 'data_', n)
        d = decide(o.st, p)
        if d is None:
            say.unk('how the parts are chosen is not understood') if strange(o.st) or loops_of(o.st) else say.bad(
                'a %s is %s without asking whether it is there' % (n.rstrip('_'), 'entered' if any(
                    g[0][1] == at(p) for g in parts) else 'passed over'))
            return
        if d:
            want.append(at(p))
    got = [g[0][1] for g in parts]
    if any(g[1] is not None for g in parts):
        say.unk('key and value are entered in a loop')
    elif got != want:
        say.bad('enters %s, not %s' % (', '.join(fmt(x) for x in got) or 'nothing', ', '.join(fmt(x) for x in want) or 'nothing'))
    elif not all(is_visitor(g[0][2]) for g in parts):
        say.bad('the visitor told is not that of the walk')


def children(say, o, e, parts):
    L = fld(e, 'data_', 'elements_')
    if not parts:
        if decide(o.st, ('T', size_of(L))) is not False and not none_there(o.st, L):
            say.bad('the entries are not entered')
        return
    if len(parts) != 1 or parts[0][1] is None:
        say.bad('entries are entered more than once, or not all of them')
        return
    (_, info, ps), _, _ = parts[0]
    r = info['range']
    if r is None or r[1] != L:
        say.unk('what is gone over is not understood')
        return
    if r[2] != C(0) or r[3] != size_of(L):
        say.bad('goes over part of the entries: from %s to %s' % (fmt(r[2]), fmt(r[3])))
        return
    if r[0] not in ('fwd', 'up', 'asc', r[0]):
        say.unk('direction')
    x = ('elem', L, info['ix'])
    for kind, facts, ss in ps:
        d = decide(merge(o.st.facts, facts), x)
        if kind not in ('norm', 'cont'):
            say.unk('the walk over the entries may stop early') if kind == 'throw' else say.bad('the walk over the entries stops early')
            continue
        cs = [s for s in ss if s[0] == 'content']
        if len(cs) != len(ss):
            say.unk('a step over the entries does something else')
        elif d is False:
            if cs:
                say.bad('an entry that is not there is entered')
        elif len(cs) != 1 or cs[0][1] != at(x):
            if not cs and d is None:
                say.bad('an entry is passed over without asking whether it is there')
            else:
                say.bad('an entry that is there is not entered, once')
        elif d is None:
            say.bad('an entry is entered without asking whether it is there')
        elif not is_visitor(cs[0][2]):
            say.bad('the visitor told is not that of the walk')


def none_there(st, L):
    for info in loops_of(st):
        r = info['range']
        if r and r[1] == L and r[2] == C(0) and r[3] == size_of(L) and all(
                k in ('norm', 'cont') and decide(merge(st.facts, f), ('elem', L, info['ix'])) is False
                for k, f, _, _ in info['paths']):
            return True
    return False


def begins(R, P):
    """the walk is set up over its own strategy, visitor and functor and begins with the element"""
    n = 0
    for f in P.fns.values():
        c = f.get('cls') or ''
        if not (c.startswith('refract::Iterate<') and c.endswith('>') and c.count('<') == 1) or f.get('body') is None:
            continue
        if f.get('ck') not in (None, '', 'other', 'ctor') and f['n'] != 'operator()':
            if f.get('ck') != 'conv':
                continue
        if f['n'] == 'operator()' and len(f['ps']) == 1:
            R.seen(f)
            say = Say(R, f, 'begin of a walk', RULE)
            try:
                _, outs = run(P, f)
            except Budget:
                say.unk('too many paths')
                outs = []
            e = param(f)
            for o in outs:
                got = steps(o.st.ev)
                ok = len(got) == 1 and (got[0][0] == 'visit' and loc_of(got[0][2][0]) == e and mentions(got[0][1], fld(THIS, 'iterator'))
                                        or got[0][0] == 'content' and got[0][1] == e and is_visitor(got[0][2]))
                if not ok:
                    if not got:
                        say.bad('the element is not gone over')
                    elif len(got) > 1 and all(loc_of(g[2][0]) == e or g[1] == e for g in got if g[0] in ('visit', 'content')):
                        say.bad('the element is gone over more than once')
                    else:
                        say.unk('how the walk begins is not understood')
            n += 1
            R.ob('begin', '%s %s' % (loc(f), f['q'][:90]), say.ok is True)
        elif f['n'] in ('(ctor)', 'Iterate') or f['q'].endswith('(ctor)'):
            if f.get('imp') or len(f['ps']) != 1:
                continue
            R.seen(f)
            say = Say(R, f, 'set up of a walk', RULE)
            try:
                I, outs = run(P, f)
            except Budget:
                say.unk('too many paths')
                outs = []
            for o in outs:
                imp = fld(THIS, 'impl')
                lv = read(o.st, fld(THIS, 'strategy', 'level'))
                if 'Children' in c and lv != C(0):
                    say.bad('the walk begins on level %s' % short(lv)) if lv[0] == 'c' else say.unk('the level a walk begins on is not known')
                if read(o.st, fld(imp, 'strategy')) != ('addr', fld(THIS, 'strategy')):
                    say.bad('the strategy is not the one of the walk')
                if read(o.st, fld(imp, 'iterator')) != ('addr', fld(THIS, 'iterator')):
                    say.bad('the visitor is not the one of the walk')
                a = read(o.st, fld(imp, 'apply'))
                if a == NULL or a == C(0) or a == fld(imp, 'apply') or a[0] == 'fld':
                    say.bad('the functor is not set')
                elif a != read(o.st, fld(THIS, 'apply')):
                    say.bad('the functor told is not the one kept')
            n += 1
            R.ob('set up', '%s %s' % (loc(f), f['q'][:90]), say.ok is True)
    if n < 4:
        R.lose('begin and set up of refract::Iterate')


# ---- selecting --------------------------------------------------------------------------------------------

def filtering(R, P):
    FV = 'refract::FilterVisitor'
    fs = [f for f in P.by_class(FV) if f.get('body') is not None]
    sel, q = fld(THIS, 'selected'), fld(THIS, 'query')
    if not fs:
        R.lose(FV)
    for f in fs:
        if f['n'] == 'operator()' and len(f['ps']) == 1:
            R.seen(f)
            k = refr.kind_of(ptype(P, f)) or 'any element'
            say = Say(R, f, 'selection of %s' % k, RULE)
            e = param(f)
            try:
                _, outs = run(P, f)
            except Budget:
                say.unk('too many paths')
                outs = []
            for o in outs:
                v = read(o.st, sel)
                d = decide(o.st, ('T', ('apply', q, e)))
                if o.kind == 'throw':
                    say.unk('raises')
                elif d is None:
                    say.bad('the question is not asked of the element') if v in (sel, ('push', sel, ('addr', e))) else say.unk('what is asked is not understood')
                elif d and v != ('push', sel, ('addr', e)):
                    if v == sel:
                        say.bad('an element the question fits is not added')
                    elif v[0] == 'push' and v[1][0] == 'push' and v[1][1] == sel:
                        say.bad('an element the question fits is added more than once')
                    elif v[0] == 'push' and v[1] == sel and not odd(v[2]):
                        say.bad('what is added is not the element')
                    else:
                        say.unk('what is added is not understood')
                elif not d and v != sel:
                    say.bad('an element the question does not fit is added')
            R.ob('selection of a kind', '%s %s' % (loc(f), k), say.ok is True)
        elif f['n'] == 'empty':
            against(R, P, f, If(('T', size_of(sel)), Val(FALSE), Val(TRUE)), 'whether nothing is selected', refr.hooks())
        elif f['n'] == 'elements':
            R.seen(f)
            say = Say(R, f, 'what is selected', RULE)
            _, outs = run(P, f)
            for o in outs:
                if o.val != ('L', sel):
                    say.bad('answers %s' % short(o.val)) if o.val and o.val[0] == 'L' else say.unk('answers %s' % short(o.val))
            R.ob('lookup', '%s %s' % (loc(f), f['q']), say.ok is True)
        elif f['q'].endswith('(ctor)') and not f.get('imp') and len(f['ps']) == 1:
            R.seen(f)
            say = Say(R, f, 'question of a selection', RULE)
            _, outs = run(P, f)
            for o in outs:
                v = read(o.st, q)
                if not mentions(v, param(f)):
                    say.bad('the question kept is not the one given') if v == q or not odd(v) else say.unk('the question kept is not understood')
            R.ob('lookup', '%s %s' % (loc(f), f['q']), say.ok is True)
    for f in live(P, 'refract::query::Element::operator()', 1):
        a = mk_eq(fld(param(f), 'name_'), fld(THIS, 'name'))
        against(R, P, f, If(a, Val(TRUE), Val(FALSE)), 'an element of a name', refr.hooks())

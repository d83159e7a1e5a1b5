"""Meaning of the element model's own vocabulary for the dataflow."""
from absint import (C, NULL, TRUE, FALSE, read, write, at, mk_eq, mk_not, assume, decide)
from front import strip_targs

KINDS = ('Null', 'String', 'Boolean', 'Number', 'Ref', 'Holder', 'Member', 'Array', 'Enum', 'Object', 'Extend',
         'Option', 'Select')


def kind_of(q):
    """'refract::Element<refract::dsd::Member>' -> 'Member'"""
    q = q.replace('const ', '').strip(' *&')
    if q.startswith('refract::Element<refract::dsd::') and q.endswith('>'):
        return q[len('refract::Element<refract::dsd::'):-1]
    return None


def elkind(v):
    """value number standing for the dynamic kind of the element a pointer refers to"""
    l = at(v)
    return ('kind', l)


def kc(k):
    return ('s', 'kind:' + k)


def type_of_arg(I, e, i):
    t = I.P.ty(e['a'][i]['t'])
    while t['k'] in ('ptr', 'ref', 'rref'):
        t = I.P.ty(t['p'])
    return t['s'].replace('const ', '')


def call(I, e, b, s, fr, ob, args):
    # checked cast: the pointer itself when the kind fits, null otherwise
    if b == 'refract::TypeQueryVisitor::as' and len(args) == 1 and e.get('ta'):
        v = I.val(s, args[0])
        k = kind_of(e['ta'][0])
        if k is None:
            return None
        out = []
        n = s.copy()
        nn = assume(s, ('T', v), True) if decide(s, v) is None else (s if decide(s, v) else None)
        if nn is not None:
            atom = mk_eq(elkind(v), kc(k))
            f = assume(nn.copy(), atom, False)
            t = assume(nn, atom, True)
            if t is not None:
                out.append((t, ('V', v)))
            if f is not None:
                out.append((f, ('V', NULL)))
        if decide(n, v) is not True:
            z = assume(n, ('T', v), False)
            if z is not None:
                out.append((z, ('V', NULL)))
        return out
    if b == 'refract::IElement::meta' or b == 'refract::IElement::attributes':
        return [(s, ('L', ('fld', ob, 'meta_' if b.endswith('meta') else 'attributes_')))]
    if b == 'refract::IElement::empty':
        return [(s, ('V', mk_not(truth(read(s, ('fld', ob, 'hasValue_'))))))]
    if b == 'refract::IElement::element' and not args:
        return [(s, ('V', read(s, ('fld', ob, 'name_'))))]
    if b == 'refract::IElement::visit' and ob is not None and I.hooks.get('dispatch'):
        return dispatch(I, e, s, fr, ob, args, 'refract::IVisitor')
    if b == 'refract::IElement::content' and ob is not None and I.hooks.get('dispatch'):
        return dispatch_content(I, e, s, fr, ob, args)
    if b in ('refract::operator==', 'refract::operator!=') and len(args) == 2 and \
            type_of_arg(I, e, 0) == 'refract::IElement':
        l, r = I.as_loc(s, args[0]), I.as_loc(s, args[1])
        v = mk_eq(('elemof', l), ('elemof', r)) if l != r else TRUE
        return [(s, ('V', v if b.endswith('==') else mk_not(v)))]
    # polymorphic clone, by any of its spellings
    if b == 'refract::clone' and args:
        l = I.as_loc(s, args[0])
        fl = I.val(s, args[1]) if len(args) > 1 else C(15)
        v = ('clone', l, fl)
        s.facts[('T', v)] = True
        return [(s, ('V', v))]
    if b.endswith('::clone') and (b == 'refract::IElement::clone' or b == 'refract::Element::clone') and ob is not None:
        fl = I.val(s, args[0]) if args else C(15)
        v = ('clone', ob, fl)
        s.facts[('T', v)] = True
        return [(s, ('V', v))]
    if b == 'refract::Element::element' and not args:
        return [(s, ('V', read(s, ('fld', ob, 'name_'))))]
    return None


def truth(v):
    from models import truth as t
    return t(v)


def dyncast(I, e, tname, s, v):
    k = kind_of(tname)
    if k is None:
        return None
    out = []
    nn = s.copy()
    d = decide(nn, v)
    nn = nn if d else (assume(nn, ('T', v), True) if d is None else None)
    if nn is not None:
        atom = mk_eq(elkind(v), kc(k))
        t = assume(nn.copy(), atom, True)
        f = assume(nn, atom, False)
        if t is not None:
            out.append((t, ('addr', at(v)) if v[0] == 'addr' else v))
        if f is not None:
            out.append((f, NULL))
    if decide(s, v) is not True:
        z = assume(s.copy(), ('T', v), False)
        if z is not None:
            out.append((z, NULL))
    return [(a, b) for a, b in out]


def kinds_here(s, ob):
    k = flag_isa(s.facts, ob)
    return (k,) if k else KINDS


def dispatch(I, e, s, fr, ob, args, base):
    """double dispatch of an element to a visitor of known class"""
    vl = I.as_loc(s, args[0])
    cls = I.dyntype(vl)
    if cls is None:
        return None
    out = []
    for k in kinds_here(s, ob):
        s2 = assume(s.copy(), mk_eq(('kind', ob), kc(k)), True)
        if s2 is None:
            continue
        fn = element_method(I.P, cls, 'operator()', k)
        if fn is None or not I.may_inline(fn, fr):
            return None
        for x, r in I.invoke(fn, s2, fr, vl, [('L', ob)]):
            out.append((x, ('V', ('void',))))
    return out


def element_method(P, cls, name, k):
    """member function of class taking an element of kind k (virtual, own class)"""
    from front import strip_targs
    want = 'const refract::Element<refract::dsd::%s> &' % k
    for f in P.by_class(cls):
        if f['n'] == name and len(f['ps']) == 1 and P.ty(f['ps'][0]['t'])['s'] == want and f.get('body') is not None:
            return f
    return None


def dispatch_content(I, e, s, fr, ob, args):
    """element.content(Visitor&): the functor behind the visitor gets the element by its own kind"""
    vl = I.as_loc(s, args[0])
    ap = read(s, ('fld', vl, 'apply'))
    cls = I.dyntype(at(ap)) if ap[0] == 'new' else None
    if cls is None:
        return None
    out = []
    for k in kinds_here(s, ob):
        s2 = assume(s.copy(), mk_eq(('kind', ob), kc(k)), True)
        if s2 is None:
            continue
        fn = element_method(I.P, cls, 'visit', k)
        if fn is None or not I.may_inline(fn, fr):
            return None
        for x, r in I.invoke(fn, s2, fr, at(ap), [('L', ob)]):
            out.append((x, ('V', ('void',))))
    return out


def hooks(**kw):
    d = {'call': call, 'dyncast': dyncast}
    d.update(kw)
    return d


def flag_isa(facts, l):
    """known kind of the element at a location"""
    for a, v in facts.items():
        if a[0] == 'eq' and v:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x == ('kind', l) and y[0] == 's':
                    return y[1][5:]
    return None

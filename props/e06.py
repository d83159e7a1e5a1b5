"""E06: an element is handled as what it is: dispatch, type query and checked cast agree on the thirteen kinds."""
import refr
from absint import Interp, Budget, C, NULL, TRUE, FALSE, St, at, read, fmt, decide, assume, mk_eq, mk_not
from front import loc
from spec import same

RULE = 'handled-as-its-kind'
KINDS = refr.KINDS
E = ('obj', 'e')


def check(R, P):
    R.rule('Every instance of the dispatching functions (visit, Visit, VisitBy) is followed with an element of each of '
           'the 13 kinds: the functor must be called exactly once, with that very element, by its overload for that '
           'kind, and what it answers must be what the dispatch answers. Each kind\'s own visit and content must '
           'enter the visitor by the overload of that kind.')
    R.rule('The type query is followed for each kind and must answer 13 different things; every instance of the '
           'checked casts (as, get) is followed for each kind of element and for none at all: it must answer the '
           'element itself when the kind is the one asked for and nothing otherwise.')
    own(R, P)
    dispatch(R, P)
    query(R, P)
    casts(R, P)
    R.floor('kind entering its own overload', 20)
    R.floor('dispatch of a kind', 100)
    R.floor('type query of a kind', 10)
    R.floor('checked cast of a kind', 300)


def param_kind(P, f):
    """kind of element the only parameter is, 'IElement', or None"""
    if len(f['ps']) != 1:
        return None
    t = P.ty(f['ps'][0]['t'])
    while t['k'] in ('ref', 'rref'):
        t = P.ty(t['p'])
    s = t['s'].replace('const ', '')
    return 'IElement' if s == 'refract::IElement' else refr.kind_of(s)


def spy(P, classes, names=('operator()', 'visit')):
    """hooks that answer the one-element functions of the classes by a term of their own"""
    base = refr.hooks(dispatch=True)
    inner = base['call']

    def call(I, e, b, s, fr, ob, args):
        f = P.fns.get(e['f'])
        if f is not None and f['n'] in names and f.get('cls') in classes and len(args) == 1:
            k = param_kind(P, f)
            if k is not None:
                l = I.as_loc(s, args[0])
                s.emit('probe', k, l, ob, e.get('l'))
                v = ('ans', k, l)
                t = P.ty(f['ret']) if f.get('ret') is not None else {'k': ''}
                return [(s, ('L', v) if t['k'] in ('ref', 'rref') else ('V', v))]
        return inner(I, e, b, s, fr, ob, args)
    base['call'] = call
    return base


def bases(P, cls):
    out, todo = [], [cls]
    while todo:
        c = todo.pop()
        if c in out or c not in P.recs:
            continue
        out.append(c)
        todo += [b['q'] if isinstance(b, dict) else b for b in P.recs[c].get('bases', [])]
    return out


def probes(ev):
    out = []
    for e in ev:
        if e[0] == 'probe':
            out.append(e)
        if e[0] == 'loop':
            for p in e[1]['paths']:
                out += probes(p[2])
    return out


def own(R, P):
    for k in KINDS:
        for m, base in (('visit', 'refract::IVisitor'), ('content', 'refract::IApply')):
            fs = [f for f in P.by_class('refract::Element<refract::dsd::%s>' % k) if f['n'] == m and f.get('body') is not None]
            for f in fs:
                R.seen(f)
                I = Interp(P, hooks=spy(P, (base,)), max_states=200)
                try:
                    outs = I.run(f, E, [('obj', 'v')])
                except Budget:
                    R.undecided(loc(f), 'too many paths')
                    continue
                ok = True
                for o in outs:
                    if o.kind == 'throw':
                        continue
                    ps = probes(o.st.ev)
                    good = [p[1:3] for p in ps] == [(k, E)]
                    if not good:
                        ok = False
                        R.violate(loc(f), RULE, 'an element of kind %s enters the visitor by %s' % (k, said(ps)),
                                  '%s|%s' % (k, m))
                R.ob('kind entering its own overload', '%s %s of %s' % (loc(f), m, k), ok)


def said(ps):
    if not ps:
        return 'no call at all'
    return ', '.join('the overload for %s%s' % (p[1], '' if p[2] == E else ' with another element') for p in ps)


def strip(t, P):
    while t['k'] in ('ref', 'rref'):
        t = P.ty(t['p'])
    return t


def dispatch(R, P):
    for name in ('refract::visit', 'refract::Visit', 'refract::VisitBy'):
        for f in sorted(P.named(name), key=lambda f: (f['file'], f['line'], f['f'])):
            if f.get('body') is None or len(f['ps']) != 2:
                continue
            ts = [strip(P.ty(p['t']), P) for p in f['ps']]
            ei = 1 if name == 'refract::Visit' else 0
            cls = ts[1 - ei].get('q')
            k0 = refr.kind_of(ts[ei]['s'].replace('const ', ''))
            if cls not in P.recs:
                continue
            classes = bases(P, cls)
            have = set()
            for c in classes:
                have |= {param_kind(P, m) for m in P.by_class(c) if m['n'] == 'operator()'}
            R.seen(f)
            for k in ((k0,) if k0 else KINDS):
                st = assume(St(), mk_eq(('kind', E), refr.kc(k)), True)
                args = [('obj', 'f'), E] if ei else [E, ('obj', 'f')]
                I = Interp(P, hooks=spy(P, classes, ('operator()',)), max_states=300)
                try:
                    outs = I.run(f, ('obj', 'this'), args, st)
                except Budget:
                    R.undecided(loc(f), 'too many paths')
                    continue
                # Visit hands over the element as it is known, the others by its own kind
                want = (k0 or 'IElement') if ei else k
                ok = True
                for o in outs:
                    if o.kind == 'throw':
                        continue
                    ps = probes(o.st.ev)
                    msg = None
                    if not ps and any(e[0] == 'call' and not str(e[1]).startswith('std::') for e in o.st.ev):
                        ok = None
                        R.undecided(loc(f), 'the dispatch to %s is not followed for %s' % (cls, k))
                        continue
                    if len(ps) != 1 or ps[0][2] != E or ps[0][1] != want and (want in have or ps[0][1] != 'IElement'):
                        msg = 'an element of kind %s reaches %s by %s' % (k, cls.rsplit('::', 1)[-1], said(ps))
                    else:
                        rt = P.ty(f['ret']) if f.get('ret') is not None else {'k': ''}
                        if o.val is not None and o.val[1] != ('void',):
                            v = o.val[1] if o.val[0] == 'L' else I.val(o.st, o.val)
                            w = ('ans', ps[0][1], E)
                            good = v == ('at', ('addr', w)) or same(o.st, v, w)
                            if good is None:
                                ok = None
                                R.undecided(loc(f), 'for %s to %s answers %s' % (k, cls, fmt(v)[:60]))
                            elif not good:
                                msg = 'for an element of kind %s answers %s rather than what the functor answers' % (k, fmt(v)[:60])
                    if msg:
                        ok = False
                        R.violate(loc(f), RULE, '%s: %s' % (f['n'], msg), '%s|%s|%s' % (f['n'], k, cls.rsplit('::', 1)[-1]))
                R.ob('dispatch of a kind', '%s %s: %s to %s' % (loc(f), f['n'], k, cls.rsplit('::', 1)[-1]), ok is True)


def query(R, P):
    cls = 'refract::TypeQueryVisitor'
    gets = [f for f in P.by_class(cls) if f['n'] == 'get' and f.get('body') is not None]
    if not gets:
        R.lose('TypeQueryVisitor::get')
        return
    get = gets[0]
    for general in (False, True):
        got = {}
        for k in KINDS:
            fn = [f for f in P.by_class(cls) if f['n'] == 'operator()' and f.get('body') is not None and
                  param_kind(P, f) == ('IElement' if general else k)]
            for f in fn:
                R.seen(f)
                st = assume(St(), mk_eq(('kind', E), refr.kc(k)), True)
                I = Interp(P, hooks=refr.hooks(dispatch=True), max_states=200)
                try:
                    vals = set()
                    for o in I.run(f, ('obj', 'this'), [E], st):
                        if o.kind == 'throw':
                            continue
                        J = Interp(P, hooks=refr.hooks(dispatch=True), max_states=50)
                        for p in J.run(get, ('obj', 'this'), [], o.st):
                            if p.kind == 'ret':
                                vals.add(J.val(p.st, p.val))
                except Budget:
                    R.undecided(loc(f), 'too many paths')
                    continue
                if len(vals) == 1 and next(iter(vals))[0] == 'c':
                    got[k] = (next(iter(vals)), f)
                    R.ob('type query of a kind', '%s %s' % (loc(f), k), True)
                else:
                    R.ob('type query of a kind', '%s %s' % (loc(f), k), False)
                    R.undecided(loc(f), 'what the query of kind %s answers is not one number: %s' % (k, [fmt(v)[:40] for v in vals]))
        back = {}
        for k, (v, f) in got.items():
            if v in back:
                R.violate(loc(f), RULE, 'the type query answers the same for %s and %s' % (back[v], k), 'query|%s|%s' % (back[v], k))
            back.setdefault(v, k)


def casts(R, P):
    for name in ('refract::TypeQueryVisitor::as', 'refract::get'):
        for f in sorted(P.named(name), key=lambda f: (f['file'], f['line'], f['f'])):
            if f.get('body') is None or len(f['ps']) != 1 or P.ty(f['ps'][0]['t'])['k'] != 'ptr':
                continue
            rt = P.ty(f['ret'])
            want = refr.kind_of(P.ty(rt['p'])['s'].replace('const ', '')) if rt['k'] == 'ptr' else None
            if want is None:
                continue
            R.seen(f)
            bad = set()
            ok = True
            for k in KINDS + (None,):
                st = St()
                v = NULL
                if k is not None:
                    st = assume(st, mk_eq(('kind', E), refr.kc(k)), True)
                    v = ('addr', E)
                I = Interp(P, hooks=refr.hooks(dispatch=True), max_states=200)
                try:
                    outs = I.run(f, ('obj', 'this'), [v], st)
                except Budget:
                    R.undecided(loc(f), 'too many paths')
                    continue
                w = ('addr', E) if k == want else NULL
                one = True
                for o in outs:
                    if o.kind == 'throw':
                        continue
                    r = I.val(o.st, o.val)
                    if r == w or w == NULL and decide(o.st, r) is False:
                        continue
                    if r not in (('addr', E), NULL):
                        one = None
                        R.undecided(loc(f), '%s to %s of %s answers %s' % (f['n'], want, k, fmt(r)[:60]))
                        continue
                    one = False
                    R.violate(loc(f), RULE, '%s to %s answers %s for %s' % (
                        f['n'], want, 'nothing' if r == NULL else 'the element',
                        'an element of kind ' + k if k else 'nothing'), '%s|%s|%s' % (f['n'], want, k))
                R.ob('checked cast of a kind', '%s %s to %s of %s' % (loc(f), f['n'], want, k or 'nothing'), one is True)

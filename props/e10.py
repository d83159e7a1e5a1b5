"""E10: expanding named types: it ends, and every part of the element comes through."""
import refr
from absint import (Interp, Budget, C, NULL, TRUE, FALSE, St, at, read, write, fmt, decide, assume, mk_eq, mk_not,
                    size_of, mentions)
from front import loc
from refr import kc, KINDS
from seqv import describe, FactsOnly

RULE = 'expansion-ends-and-keeps-every-part'
XV = 'refract::ExpandVisitor'
QV = 'refract::IsExpandableVisitor'
IL = 'refract::InfoElements'
THIS, CTX, E = ('obj', 'this'), ('obj', 'ctx'), ('obj', 'e')
NOLIST = ('nolist',)
LEAF = ('String', 'Number', 'Boolean')
SEQS = ('Array', 'Object', 'Option', 'Extend', 'Select')
NAMED = ('String', 'Number', 'Boolean', 'Enum', 'Array', 'Object', 'Option', 'Extend')
NAME = ('fld', E, 'name_')
ID = ('s', 'id')


def check(R, P):
    R.rule('The expansion of each kind of element is followed on all paths. A path may go on into a registered type only '
           'after a look through the whole list of types being expanded found its name missing, with the name put on '
           'that list and taken off it again; every other step goes to a part of the element at hand and tells the same '
           'visitor. What a path answers must hold every part: each child expanded, or copied where there is nothing to '
           'expand, in order; annotations and attributes; the inherited types before the element itself.')
    R.rule('The walk up the parents of a type must end at one seen before and record each ancestor once, annotated with '
           'its name; the question whether an element needs expanding may be answered no only when its name is reserved '
           'and the same was answered for every part.')
    ops = entries(P, XV)
    if not ops:
        R.lose('the visit functions of ' + XV)
    walkers = trees(P)
    for k in KINDS:
        if k in ops:
            kind(R, P, ops[k], k, walkers)
        else:
            R.lose('%s for %s' % (XV, k))
    hand_over(R, P)
    for f in walkers.values():
        ancestors(R, P, f)
    if not walkers:
        R.undecided('', 'no function collects the ancestors of a type')
    ask = entries(P, QV)
    for k in KINDS:
        if k in ask:
            question(R, P, ask[k], k)
    R.floor('expansion of a kind', 13)
    R.floor('question asked of a kind', 13)
    R.floor('walk over the ancestors', 1)


def entries(P, cls):
    """kind -> its operator() taking an element of the kind"""
    r = {}
    for f in P.by_class(cls):
        if f['n'] == 'operator()' and f.get('body') is not None and len(f['ps']) == 1:
            t = P.ty(f['ps'][0]['t'])['s']
            if t.startswith('const ') and t.endswith(' &'):
                k = refr.kind_of(t[6:-2])
                if k:
                    r[k] = f
    return r


def trees(P):
    """functions from a name and a registry to the extended type made of the ancestors"""
    xs = [f for f in P.named(XV + '::(ctor)') + list(entries(P, XV).values()) if f.get('body') is not None]
    files = {f['file'] for f in xs}
    r = {}
    for f in P.fns.values():
        if f.get('body') is None or f['file'] not in files:
            continue
        t = [P.ty(p['t'])['s'] for p in f['ps']]
        if len(t) == 2 and t[0].startswith('const ') and 'basic_string' in t[0] and t[1] == 'const refract::Registry &' and \
                f['n'] != 'operator()':
            r[f['f']] = f
    return r


# ---- what the vocabulary of the element model means here -------------------------------------------------

def el(l):
    return ('fld', l, 'elements')


def make_hooks(P, walkers=()):
    H = refr.hooks()
    inner = H['call']
    cont = {}
    for k in SEQS:
        fl = [x['n'] for x in P.recs.get('refract::dsd::' + k, {}).get('fields', ()) if not x.get('static')]
        if len(fl) == 1:
            cont['refract::dsd::' + k] = fl[0]

    def cls_of(f):
        q = f.get('cls') or ''
        i = q.find('container_traits<')
        return q[i + 17:].partition(',')[0] if i >= 0 else q

    def ctor(I, e, s, fr, l, args):
        q = e['q'].rsplit('::', 1)[0]
        if q == IL:
            if not args:
                write(s, el(l), NOLIST)
                return [s]
            if args[0][0] == 'L':
                write(s, el(l), read(s, el(args[0][1])))
                return [s]
        if q.startswith('refract::dsd::') and e['ck'] == 'copy' and len(args) == 1 and args[0][0] == 'L' and q[14:] in KINDS:
            write(s, l, read(s, args[0][1]))
            return [s]
        return None

    def call(I, e, b, s, fr, ob, args):
        def V(v):
            return [(s, ('V', v))]
        if b == 'refract::VisitBy' and len(args) == 2:
            q = refr.type_of_arg(I, e, 1)
            x, vl = I.as_loc(s, args[0]), I.as_loc(s, args[1])
            if q == XV:
                s.emit('expand', x, vl, e.get('l'))
                write(s, ('fld', vl, 'result'), ('exp', x))
                return V(('void',))
            if q == QV:
                s.emit('asked', x, vl, e.get('l'))
                write(s, ('fld', vl, 'result'), ('T', ('xable', x)))
                return V(('void',))
        if b == 'refract::isReserved':
            v = I.val(s, args[0])
            if v[0] == 'it' and v[2] == C(0):
                v = read(s, v[1])
            return V(('T', ('res', v)))
        if b == 'refract::Registry::find':
            return V(('reg', I.val(s, args[0])))
        if b == 'refract::FindRootAncestor':
            v = ('root', I.val(s, args[0]))
            s.facts[('T', v)] = True
            return V(v)
        if e['f'] in walkers and fr is not None and len(args) == 2:
            v = ('tree', I.val(s, args[0]))
            s.facts[('T', v)] = True
            return V(v)
        f = P.fns.get(e['f'])
        if ob is not None and f is not None and f.get('cls') == IL:
            L = el(ob)
            old = read(s, L)
            n = f['n']
            t0 = P.ty(f['ps'][0]['t'])['s'] if f['ps'] else ''
            if n == 'set' and len(args) == 2:
                k, v = I.val(s, args[0]), I.val(s, args[1])
                if P.ty(f['ps'][1]['t'])['s'].startswith('const refract::IElement'):
                    v = ('clone', I.as_loc(s, args[1]), C(15))
                s.emit('mset', L, k, v, e.get('l'))
                write(s, L, ('with', old, k, v))
                return [(s, ('L', at(v)))]
            if n == 'erase' and ('basic_string' in t0 or 'char' in t0):
                k = I.val(s, args[0])
                s.emit('merase', L, k, e.get('l'))
                write(s, L, ('without', old, k))
                return V(('void',))
            if n == 'claim' and len(args) == 1:
                a = I.val(s, args[0])
                if a[0] == 'it':
                    if a[1] != L or a[2][0] != 'find' or a[2][1] != old:
                        return None
                    k = a[2][2]
                else:
                    k = a
                res = []
                for w in (True, False):
                    s2 = assume(s.copy(), mk_eq(('find', old, k), size_of(old)), w)
                    if s2 is None:
                        continue
                    s2.emit('merase', L, k, e.get('l'))
                    if not w:
                        write(s2, L, ('without', old, k))
                    res.append((s2, ('V', NULL if w else ('fld', ('elem', old, ('find', old, k)), 'second'))))
                return res
            if n == 'clear':
                s.emit('mclear', L, e.get('l'))
                write(s, L, NOLIST)
                return V(('void',))
            if n == 'clone':
                write(s, L, ('plus', old, read(s, el(I.as_loc(s, args[0])))))
                return V(('void',))
            if n == 'find':
                return V(('it', L, ('find', old, I.val(s, args[0]))))
            if n == 'operator=':
                s.emit('massign', L, e.get('l'))
                write(s, L, read(s, el(I.as_loc(s, args[0]))))
                return [(s, ('L', ob))]
        if b == 'std::back_inserter' and len(args) == 1:
            c = refr.type_of_arg(I, e, 0)
            if c in cont:
                return V(('backins', ('fld', I.as_loc(s, args[0]), cont[c])))
        if ob is not None and f is not None and f['n'] == 'push_back' and len(args) == 1 and cls_of(f) in cont:
            L = ('fld', ob, cont[cls_of(f)])
            v = I.val(s, args[0])
            s.emit('push', L, v, e.get('l'))
            write(s, L, ('push', read(s, L), v))
            return V(('void',))
        return inner(I, e, b, s, fr, ob, args)
    H['call'] = call
    H['ctor'] = ctor
    return H


# ---- reading terms ----------------------------------------------------------------------------------------

def root_of(x):
    """what a location lies in: the element at hand, a registered type, the ancestors of a type, or something else"""
    if x == E:
        return ('self',)
    while isinstance(x, tuple) and x and x[0] in ('at', 'fld', 'elem', 'dcopy', 'clone'):
        x = x[1]
        if x == E:
            return ('part',)
    if isinstance(x, tuple) and x and x[0] in ('reg', 'tree', 'root', 'exp'):
        return x if x[0] != 'exp' else root_of(x[1])
    return None


def unclone(t):
    """a copy has the same content as its source: the same name written through either"""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('at',) and isinstance(t[1], tuple) and t[1][:1] == ('clone',):
        return unclone(t[1][1])
    return tuple(unclone(x) for x in t)


def same(a, b):
    return a == b or unclone(a) == unclone(b)


def null_in(t):
    return isinstance(t, tuple) and (t == ('at', NULL) or any(null_in(x) for x in t))


def walk(ev):
    for e in ev:
        yield e
        if e[0] == 'loop':
            for p in e[1]['paths']:
                yield from walk(p[2])


def loops(ev):
    return [e[1] for e in walk(ev) if e[0] == 'loop']


def in_progress(st, name):
    """(True|False|None, list): does the path know whether the name is on the list of types being expanded"""
    for a, v in st.facts.items():
        q = a[2] if a[0] == 'forall' else a
        if q[0] != 'eq':
            continue
        for x, y in ((q[1], q[2]), (q[2], q[1])):
            if x[0] == 'elem' and under(x[1], CTX) and same(y, name):
                if a[0] == 'forall' and v is False:
                    return False, x[1], a[1]
                if a[0] == 'eq' and v is True:
                    return True, x[1], None
    return None, None, None


def under(l, root):
    while isinstance(l, tuple) and l:
        if l == root:
            return True
        if l[0] == 'hv':
            l = l[2]
            continue
        if l[0] not in ('fld', 'elem', 'at', 'push'):
            return False
        l = l[1]
    return False


class Say:
    def __init__(self, R, f, what):
        self.R, self.f, self.what, self.ok = R, f, what, True

    def bad(self, text):
        self.ok = False
        self.R.violate(loc(self.f), RULE, '%s: %s' % (self.what, text), '%s|%s' % (self.what, text[:90]))

    def unk(self, text):
        if self.ok:
            self.ok = None
        self.R.undecided(loc(self.f), '%s: %s' % (self.what, text))

    def __call__(self, ok, text):
        if ok is False:
            self.bad(text)
        elif ok is None:
            self.unk(text)


def start():
    s = St()
    write(s, ('fld', THIS, 'context'), ('addr', CTX))
    write(s, ('fld', CTX, 'expand'), ('addr', THIS))
    write(s, ('fld', THIS, 'result'), NULL)
    s.facts[('T', ('addr', CTX))] = True
    return s


def fields_there(P):
    r = P.recs.get(XV)
    c = P.recs.get(XV + '::Context')
    return r and c and {'result', 'context'} <= {x['n'] for x in r['fields']} and 'expand' in {x['n'] for x in c['fields']}


# ---- the expansion of one kind ----------------------------------------------------------------------------

def kind(R, P, f, k, walkers):
    say = Say(R, f, 'expansion of ' + k)
    R.seen(f)
    if not fields_there(P):
        say.unk('the visitor does not keep its result and its context as expected')
        return
    I = Interp(P, hooks=make_hooks(P, walkers), max_states=4000, max_depth=14)
    try:
        outs = I.run(f, THIS, [E], st=start())
    except Budget:
        say.unk('too many paths')
        R.ob('expansion of a kind', k, False)
        return
    if not any(o.kind == 'ret' for o in outs):
        say.bad('never answers')
    for o in outs:
        st = o.st
        if any(null_in(a) for a in st.facts) or impossible(st):
            continue
        if o.kind == 'ret':
            guards(say, P, st, k)
        if o.kind == 'throw':
            if k != 'Ref' or in_progress(st, symbol(P))[0] is not True:
                say.bad('raises')
            continue
        r = read(st, ('fld', THIS, 'result'))
        if r == NULL:
            nothing(say, st, k)
        elif k in ('Null', 'Holder'):
            say.unk('answers %s' % fmt(r)[:60])
        else:
            {'Ref': reference, 'Member': member}.get(k, plain_or_named)(say, P, I, st, k, r)
    R.ob('expansion of a kind', k, say.ok is True)


def impossible(st):
    """a loop over nothing leaves a list empty: a path that found something in it cannot be"""
    for i in loops(st.ev):
        r = i['range']
        if r is not None and r[2] == C(0) and r[3] == C(0):
            for a, v in st.facts.items():
                if v and a[0] == 'lt' and a[1] == C(0) and a[2][0] == 'size' and a[2][1][:2] == ('hv', i['ix'][1]):
                    return True
    return False


def symbol(P):
    fl = [x['n'] for x in P.recs.get('refract::dsd::Ref', {}).get('fields', ()) if not x.get('static')]
    return ('fld', ('fld', E, 'data_'), fl[0] if len(fl) == 1 else '?')


def guards(say, P, st, k):
    """every step of the recursion goes to a part of the element, or to a type that is not being expanded already"""
    stack = []

    def step(ev, facts_of, inloop):
        for e in ev:
            if e[0] == 'loop':
                for kd, facts, ev2, val in e[1]['paths']:
                    n = len(stack)
                    step(ev2, facts, True)
                    if len(stack) != n and kd in ('norm', 'cnt'):
                        say.bad('a round leaves the list of types being expanded changed')
                        del stack[n:]
            elif e[0] == 'push' and under(e[1], CTX):
                stack.append(e[2])
            elif e[0] == 'pop' and under(e[1], CTX):
                if not stack:
                    say.bad('takes a name off the list of types being expanded that it did not put there')
                else:
                    stack.pop()
            elif e[0] in ('clear', 'erase', 'assign', 'insert', 'swap', 'resize') and under(e[1], CTX):
                say.unk('changes the list of types being expanded by %s' % e[0])
            elif e[0] == 'expand':
                visit(e)

    def visit(e):
        if e[2] != THIS:
            say.bad('a part is expanded by a visitor that does not know what is being expanded')
            return
        if null_in(e[1]):
            return
        r = root_of(e[1])
        if r is None:
            say.unk('expands %s' % fmt(e[1])[:60])
        elif r == ('self',):
            say.bad('expands itself again: never ends')
        elif r == ('part',):
            if stack:
                say.bad('the element\'s own parts are expanded while its type counts as being expanded')
        else:
            known, lst, ix = in_progress(st, r[1])
            if known is not False:
                say.bad('goes into the type %s without having found it missing from the types being expanded: may never '
                        'end' % fmt(r[1])[:40])
                return
            full = [i for i in loops(st.ev) if i['ix'] == ix and i['range'] is not None]
            if full and not (full[0]['range'][2] == C(0) and same(full[0]['range'][1], lst) and
                             full[0]['range'][3][0] == 'size'):
                say.bad('looks through a part of the types being expanded only: may never end')
            if not any(same(x, r[1]) for x in stack):
                say.bad('goes into the type %s without listing it as being expanded: may never end' % fmt(r[1])[:40])
    step(st.ev, st.facts, False)
    if stack:
        say.bad('leaves a name on the list of types being expanded')


def nothing(say, st, k):
    if k in ('Null', 'Holder'):
        return
    if k == 'Ref':
        say.bad('a reference is not resolved')
        return
    if decide(st, ('T', ('xable', E))) is False:
        return
    if k in LEAF and decide(st, ('T', ('res', NAME))) is True:
        return
    if decide(st, ('T', ('res', NAME))) is False:
        say.bad('a named type is left as it is')
    else:
        say.bad('is left as it is without having found nothing to expand in it')


def part_ok(st, v, src):
    """(verdict, why): v is the expansion of the element behind src, or its copy where there is none"""
    src_null = decide(st, ('T', src))
    x = ('exp', at(src))
    if v == NULL:
        if src_null is False:
            return True, ''
        return False, 'a part is lost'
    if v == src and src_null is False:
        return True, ''
    if v == x:
        d = decide(st, ('T', x))
        if d is True:
            return True, ''
        return False, 'a part that has nothing to expand is lost'
    if v[0] == 'clone':
        if v[1] != at(src):
            return False, 'a part is a copy of something else'
        if decide(st, ('T', x)) is not False and decide(st, ('T', ('xable', at(src)))) is not False:
            return False, 'a part is copied without being expanded'
        if v[2] != C(15):
            return False, 'a part is copied without all its facets'
        return True, ''
    if v[0] == 'exp':
        return False, 'a part is the expansion of something else'
    return None, 'a part is %s' % fmt(v)[:60]


def mapped(say, st, segs, src, what, lone=None):
    """the segments hold the expansion of each entry of src in order (then what lone accepts)"""
    segs = [x for x in segs if not (x[0] == 'map' and x[1]['range'] is not None and x[1]['range'][2] == x[1]['range'][3])]
    n = 0
    for i, x in enumerate(segs):
        if x[0] == 'map':
            r = x[1]['range']
            if r is None:
                say.unk('%s come from a loop not understood' % what)
                return
            if r[0] == 'rrange':
                (say.bad if r[1] == ('rev', src) else say.unk)('%s come in reverse order' % what)
                return
            if r[1] != src:
                say.unk('%s come from %s' % (what, fmt(r[1])[:60]))
                return
            if r[2] != C(0) or r[3][0] != 'size':
                say.bad('%s: only those from %s to %s are taken' % (what, fmt(r[2]), fmt(r[3])[:30]))
                return
            n += 1
            if i > 0:
                say.bad('%s come after what they should precede' % what)
            p = ('elem', src, x[1]['ix'])
            for kd, facts, vals in x[2]:
                if kd == 'brk' or kd == 'ret':
                    say.bad('%s that follow are left out' % what)
                    continue
                if len(vals) != 1:
                    say.bad('%s: %d taken for one' % (what, len(vals)))
                    continue
                ok, why = part_ok(FactsOnly(facts), vals[0], p)
                if ok is not True:
                    say(ok, '%s: %s' % (what, why))
        elif x[0] == 'one' and lone is not None and i == len(segs) - 1:
            lone(x[1])
            lone = None
        elif x[0] == 'old' and x[1] == src:
            say.bad('%s are copied without being expanded' % what)
            n += 1
        else:
            say.unk('%s: %s' % (what, x[0]))
            return
    if lone is not None:
        say.bad('the element itself is lost')
    return n


def new_of(v):
    """kind of a freshly made element"""
    if v[0] == 'new' and v[1][0] == 'heap':
        return refr.kind_of(v[1][3]) if len(v[1]) > 3 else None
    return None


def src(l, n):
    return el(('fld', l, n))


def content(say, P, I, st, k, r):
    """a new element of kind k holds the expanded content of the element at hand"""
    l = at(r)
    had = decide(st, ('T', ('fld', E, 'hasValue_')))
    hv = read(st, ('fld', l, 'hasValue_'))
    if hv == FALSE or hv == C(0):
        if had is not False:
            say.bad('comes out without its content')
        return
    if had is None and hv not in (('fld', E, 'hasValue_'), ('T', ('fld', E, 'hasValue_'))):
        if k == 'Select':
            had = True
        else:
            say.bad('comes out with content whether or not it had any')
            return
    if had is False:
        say.bad('comes out with content it did not have')
        return
    d, sd = ('fld', l, 'data_'), ('fld', E, 'data_')
    fl = [x['n'] for x in P.recs['refract::dsd::' + k]['fields'] if not x.get('static')]
    if k in LEAF:
        for n in fl:
            v = read(st, ('fld', d, n))
            if v != ('fld', sd, n):
                say(None if mentions(v, sd) else False, 'its value is %s' % fmt(v)[:60])
    elif k == 'Enum':
        v = read(st, ('fld', d, fl[0]))
        ok, why = part_ok(st, v, ('fld', sd, fl[0]))
        if ok is not True:
            say(ok, 'its value: ' + why)
    else:
        segs = describe(st, read(st, ('fld', d, fl[0])))
        if segs is None:
            say.unk('its children: %s' % fmt(read(st, ('fld', d, fl[0])))[:80])
            return
        n = mapped(say, st, segs, ('fld', sd, fl[0]), 'its children')
        if n == 0:
            say.bad('its children are lost')
        elif n is not None and n > 1:
            say.bad('its children are taken %d times' % n)


def name_ok(say, P, st, k, l):
    v = read(st, ('fld', l, 'name_'))
    if mentions(v, NAME):
        say.bad('the element itself keeps the name of the type')
    elif v[0] == 'gv' and ('@%s@' % k) not in v[1]:
        say.bad('the element itself is named as %s' % fmt(v)[:50])


def lists(say, st, k, l, noid):
    a = read(st, src(l, 'attributes_'))
    want = src(E, 'attributes_')
    if a != want and k != 'Enum':
        empty = a in (NOLIST,) or a[0] == 'empty'
        if not (empty and decide(st, mk_eq(size_of(want), C(0))) is True):
            say(False if empty else None, 'its attributes are %s' % ('lost' if empty else fmt(a)[:60]))
    m = read(st, src(l, 'meta_'))
    want = src(E, 'meta_')
    if noid:
        nohas = decide(st, mk_eq(('find', want, ID), size_of(want))) is True
        if m == ('without', want, ID) or m == want and nohas:
            return
        if m == want:
            say.bad('the element itself keeps the id of the type')
            return
    if m == want and not noid:
        return
    say(False if m == NOLIST else None if mentions(m, want) and m[0] not in ('without',) else False,
        'its meta is %s' % ('lost' if m == NOLIST else fmt(m)[:60]))


def enum_attributes(say, P, I, st, r):
    """all attributes of an enum are copied; the enumerations are expanded one by one"""
    l = at(r)
    D = src(l, 'attributes_')
    S = src(E, 'attributes_')
    v = read(st, D)
    ENUMS = ('s', 'enumerations')
    if v[0] == 'with' and v[1] == S and v[2] == ENUMS:
        arr(say, P, st, v[3], ('fld', ('elem', S, ('find', S, ENUMS)), 'second'))
        return
    if v == S:
        has = decide(st, mk_eq(('find', S, ENUMS), size_of(S)))
        if has is not True:
            say.bad('its enumerations are not expanded')
        return
    if v[0] != 'hv':
        say(False if v == NOLIST else None, 'its attributes are %s' % ('lost' if v == NOLIST else fmt(v)[:60]))
        return
    lp = [i for i in loops(st.ev) if i['ix'][1] == v[1]]
    if len(lp) != 1 or lp[0]['range'] is None or lp[0]['range'][1] != S:
        say.unk('its attributes come from a loop not understood')
        return
    i = lp[0]
    if read(i['prestore'], D) not in (NOLIST,):
        say.unk('its attributes start from %s' % fmt(read(i['prestore'], D))[:50])
    if i['range'][2] != C(0) or i['range'][3] != size_of(S):
        say.bad('takes the attributes from %s to %s only' % (fmt(i['range'][2]), fmt(i['range'][3])[:30]))
        return
    p = ('elem', S, i['ix'])
    first, second = ('fld', p, 'first'), ('fld', p, 'second')
    ends = {id(fa): s for fa, s in (i.get('ends') or [])}
    for kd, fa, ev, val in i['paths']:
        S1 = ends.get(id(fa)) or FactsOnly(fa)
        if any(null_in(a) for a in fa) or decide(S1, ('T', second)) is False or \
                any(a[0] == 'eq' and x is False and ('kind', at(second)) in a[1:] for a, x in fa.items()):
            continue
        if any(null_in(x) for e in ev for x in e if isinstance(x, tuple)):
            continue
        isen = decide(S1, mk_eq(first, ENUMS))
        sets = [e for e in ev if e[0] == 'mset' and e[1] == D]
        if kd in ('brk', 'ret'):
            say.bad('leaves out the attributes that follow')
            continue
        if len(sets) != 1:
            say.bad('%d attributes are set for one' % len(sets))
            continue
        if sets[0][2] != first and not (isen and sets[0][2] == ENUMS):
            say.bad('an attribute is set under the name %s' % fmt(sets[0][2])[:40])
            continue
        w = sets[0][3]
        if isen is False:
            if w != ('clone', at(second), C(15)) and w != ('exp', at(second)):
                say(False if w[0] in ('clone', 'c') else None, 'an attribute is not copied: %s' % fmt(w)[:50])
        elif isen is True:
            if S1.__class__ is FactsOnly:
                say.unk('the enumerations')
                continue
            arr(say, P, S1, w, second)
        else:
            if w != ('clone', at(second), C(15)):
                say.unk('an attribute is %s' % fmt(w)[:50])
            else:
                say.bad('its enumerations are not expanded')


def arr(say, P, st, v, ptr):
    if v[0] == 'clone':
        say.bad('its enumerations are not expanded')
        return
    if v == ('exp', at(ptr)):
        return
    if new_of(v) != 'Array':
        say.unk('its enumerations are %s' % fmt(v)[:60])
        return
    fl = [x['n'] for x in P.recs['refract::dsd::Array']['fields'] if not x.get('static')][0]
    segs = describe(st, read(st, ('fld', ('fld', at(v), 'data_'), fl)))
    if segs is None:
        say.unk('its enumerations are not understood')
        return
    n = mapped(say, st, segs, ('fld', ('fld', at(ptr), 'data_'), fl), 'its enumerations')
    if n == 0:
        say.bad('its enumerations are lost')


def plain_or_named(say, P, I, st, k, r):
    res = decide(st, ('T', ('res', NAME)))
    if k == 'Select' or res is True:
        # one of its own kind
        if new_of(r) != k:
            if r[0] == 'clone' and r[1] == E:
                say.bad('is copied without its children being expanded')
            else:
                say(False if new_of(r) else None, 'becomes %s' % (new_of(r) or fmt(r)[:60]))
            return
        content(say, P, I, st, k, r)
        lists(say, st, k, at(r), False)
        if k == 'Enum':
            enum_attributes(say, P, I, st, r)
        return
    if k not in NAMED:
        say.unk('%s: %s' % (k, fmt(r)[:60]))
        return
    known = in_progress(st, NAME)[0]
    if known is None:
        if res is None:
            say.unk('answers without asking whether the name is reserved')
        elif not any(e[0] == 'expand' for e in walk(st.ev)):
            say.bad('a named type comes out without what it is made of')
        return
    if known is True:
        circular(say, st, r)
    else:
        named(say, P, I, st, k, r)


def circular(say, st, r):
    """a type met within its own definition"""
    if any(e[0] == 'expand' for e in walk(st.ev)):
        say.bad('goes on expanding a type that is being expanded: never ends')
        return
    if r[0] != 'clone' or r[1] != at(('root', NAME)):
        say(False if r == NULL or r[0] == 'clone' and r[1] == E else None,
            'within its own definition a type becomes %s' % fmt(r)[:60])
        return
    if r[2][0] != 'c':
        say.unk('copies with facets %s' % fmt(r[2]))
    elif r[2][1] != 0x13:
        say.bad('within its own definition a type is a copy with facets 0x%x instead of annotations and attributes '
                'without the id' % r[2][1])
    l = at(r)
    base = src(l, 'meta_')
    v = read(st, base)
    if v == base:
        say.bad('within its own definition a type does not say which one it is')
        return
    if not (v[0] == 'with' and v[1] == base):
        say.unk('meta of the reference: %s' % fmt(v)[:60])
        return
    if v[2] != ('s', 'ref'):
        say.bad('within its own definition the name of a type is kept under %s' % fmt(v[2])[:30])
    text(say, st, v[3], NAME, 'the reference to a type')


def text(say, st, p, name, what):
    """p: a new string element that holds the name"""
    if new_of(p) != 'String':
        say(None, '%s is %s' % (what, fmt(p)[:50]))
        return
    if read(st, ('fld', at(p), 'hasValue_')) not in (TRUE, C(1)):
        say.bad('%s is left without the name' % what)
        return
    d = [read(st, x) for x in (('fld', ('fld', at(p), 'data_'), 'value_'),)]
    if not same(d[0], name):
        say(None if d[0][0] in ('hv', 'call') else False, '%s names %s' % (what, fmt(d[0])[:50]))


def named(say, P, I, st, k, r):
    T = at(('tree', NAME))
    if new_of(r) != 'Extend':
        say(False if new_of(r) or r[0] == 'clone' or r[0] == 'exp' else None, 'a named type becomes %s' % fmt(r)[:60])
        return
    l = at(r)
    a = read(st, src(l, 'attributes_'))
    if a not in (NOLIST, src(T, 'attributes_')):
        say.unk('attributes of the extended type: %s' % fmt(a)[:60])
    # its id
    m = read(st, src(l, 'meta_'))
    em = src(E, 'meta_')
    has = decide(st, mk_eq(('find', em, ID), size_of(em)))
    idp = ('fld', ('elem', em, ('find', em, ID)), 'second')
    there = has is False and decide(st, ('T', idp)) is not False
    idval = decide(st, ('T', ('fld', at(idp), 'hasValue_')))
    base = m[1] if m[0] == 'with' else m
    if base not in (NOLIST, src(T, 'meta_')):
        say(None if m[0] not in ('without',) else False, 'meta of the extended type: %s' % fmt(m)[:60])
    elif m[0] == 'with':
        if m[2] != ID or m[3] != ('clone', at(idp), C(15)):
            say(False if m[3][0] == 'clone' else None, 'the extended type gets %s under %s' % (fmt(m[3])[:40], fmt(m[2])[:20]))
        if has is not False:
            say.bad('takes over an id that is not there')
    elif has is None or there and idval is not False:
        say.bad('the extended type does not get the id of the element')
    # its parts
    fl = [x['n'] for x in P.recs['refract::dsd::Extend']['fields'] if not x.get('static')][0]
    if read(st, ('fld', l, 'hasValue_')) not in (TRUE, C(1)):
        v = read(st, ('fld', l, 'hasValue_'))
        say(False if v in (FALSE, C(0)) else None, 'the extended type has no content')
    segs = describe(st, read(st, ('fld', ('fld', l, 'data_'), fl)))
    if segs is None:
        say.unk('parts of the extended type: %s' % fmt(read(st, ('fld', ('fld', l, 'data_'), fl)))[:80])
        return
    seen = []

    def origin(v):
        seen.append(v)
        if new_of(v) != k:
            if v[0] in ('clone',) and v[1] == E:
                say.bad('the element itself is copied without its parts being expanded')
            else:
                say(False if new_of(v) else None, 'the last part is %s' % (new_of(v) or fmt(v)[:60]))
            return
        content(say, P, I, st, k, v)
        lists(say, st, k if k != 'Enum' else 'Named', at(v), True)
        name_ok(say, P, st, k, at(v))
    n = mapped(say, st, segs, ('fld', ('fld', T, 'data_'), fl), 'the inherited types', origin)
    if n == 0 and decide(st, ('T', ('fld', T, 'hasValue_'))) is not False:
        say.bad('the inherited types are lost')


def reference(say, P, I, st, k, r):
    if r != ('clone', E, C(15)):
        say(False if r[0] in ('clone', 'new') else None, 'a reference becomes %s' % fmt(r)[:60])
        return
    l = at(r)
    for n in ('meta_', 'attributes_'):
        if n == 'meta_' and read(st, src(l, n)) != src(l, n):
            say.unk('meta of a reference is %s' % fmt(read(st, src(l, n)))[:60])
    sym = symbol(P)
    base = src(l, 'attributes_')
    v = read(st, base)
    empty = None
    for a, w in st.facts.items():
        if a[0] == 'T' and a[1][0] == 'size' and same(a[1][1], sym):
            empty = not w
        elif a[0] == 'eq' and C(0) in a[1:] and any(x[0] == 'size' and same(x[1], sym) for x in a[1:]):
            empty = w
        elif a[0] == 'eq' and ('s', '') in a[1:] and any(same(x, sym) for x in a[1:]):
            empty = w
    regs = [a[1] for a in st.facts if a[0] == 'T' and a[1][0] == 'reg' and same(a[1][1], sym)]
    found = decide(st, ('T', regs[0])) if regs else None
    if empty is True or found is False:
        if v != base:
            say.bad('a reference that names nothing gets attributes')
        return
    if found is None:
        if in_progress(st, sym)[0] is True:
            say.bad('a type that references itself is let pass')
        elif v == base:
            say.bad('a reference is left unresolved')
        else:
            say.unk('attributes of a reference: %s' % fmt(v)[:60])
        return
    if not (v[0] == 'with' and v[1] == base and v[2] == ('s', 'resolved')):
        say(False if v == base or v[0] == 'with' and v[1] == base else None,
            'the referenced type is not kept as "resolved" (%s)' % fmt(v)[:40])
        return
    x = v[3]
    ok, why = part_ok(st, x, regs[0])
    if ok is not True:
        say(ok, 'the referenced type: ' + why)
        return
    xm = src(at(x), 'meta_')
    has = decide(st, mk_eq(('find', xm, ID), size_of(xm)))
    idp = ('fld', ('elem', xm, ('find', xm, ID)), 'second')
    m = read(st, xm)
    full = has is False and decide(st, ('T', idp)) is not False and decide(st, ('T', ('fld', at(idp), 'hasValue_'))) is not False
    moved = [t for c in (('clone', at(idp), C(15)), idp) for t in (
        ('without', ('with', xm, ('s', 'ref'), c), ID), ('with', ('without', xm, ID), ('s', 'ref'), c))]
    if has is None and m == xm:
        say.bad('the referenced type keeps its id')
    elif full:
        if m not in moved:
            say(False if m == xm or m[0] in ('with', 'without') else None,
                'the id of the referenced type does not become its "ref" (%s)' % fmt(m)[-50:])
    elif m != xm and m != ('without', xm, ID):
        say.unk('meta of the referenced type: %s' % fmt(m)[:60])


def member(say, P, I, st, k, r):
    if r[0] != 'clone' or r[1] != E:
        if new_of(r) == 'Member':
            l = at(r)
            lists(say, st, k, l, False)
        else:
            say(False if r[0] == 'clone' else None, 'becomes %s' % fmt(r)[:60])
            return
    else:
        if r[2][0] == 'c' and (r[2][1] & 11) != 11 or r[2][0] == 'c' and r[2][1] & 16:
            say.bad('its facets 0x%x are not all copied' % r[2][1])
        l = at(r)
        for n in ('meta_', 'attributes_'):
            v = read(st, src(l, n))
            if v != src(l, n):
                say(None, 'its %s are %s' % (n.rstrip('_'), fmt(v)[:60]))
    if read(st, ('fld', l, 'hasValue_')) not in (TRUE, C(1)):
        if decide(st, ('T', ('fld', E, 'hasValue_'))) is not False:
            say.bad('its key and value are lost')
        return
    for n in ('key_', 'value_'):
        v = read(st, ('fld', ('fld', l, 'data_'), n))
        ok, why = part_ok(st, v, ('fld', ('fld', E, 'data_'), n))
        if ok is not True:
            say(ok, 'its %s: %s' % (n.rstrip('_'), why))


# ---- the visitor ------------------------------------------------------------------------------------------

def hand_over(R, P):
    for f in P.by_class(XV):
        if f.get('body') is None:
            continue
        if f['n'] == 'operator()' and len(f['ps']) == 1 and P.ty(f['ps'][0]['t'])['s'] == 'const refract::IElement &':
            say = Say(R, f, 'visit of any element')
            R.seen(f)
            I = Interp(P, hooks=make_hooks(P), max_states=200)
            for o in I.run(f, THIS, [E], st=start()):
                x = [e for e in walk(o.st.ev) if e[0] == 'expand']
                if len(x) != 1 or x[0][1] != E or x[0][2] != THIS:
                    say.bad('does not go on to the visit of its kind')
            R.ob('hand-over of the result', loc(f), say.ok is True)
        if f['n'] == 'get' and not f['ps']:
            say = Say(R, f, 'result of the expansion')
            R.seen(f)
            s = start()
            v = ('obj', 'made')
            s.facts[('T', v)] = True
            write(s, ('fld', THIS, 'result'), v)
            I = Interp(P, hooks=make_hooks(P), max_states=200)
            for o in I.run(f, THIS, st=s):
                if o.kind != 'ret' or o.val is None or I.val(o.st, o.val) != v:
                    say.bad('is not what the visit made')
                elif read(o.st, ('fld', THIS, 'result')) == v:
                    say.bad('stays with the visitor: the next element would get it')
            R.ob('hand-over of the result', loc(f), say.ok is True)


# ---- the ancestors of a type ------------------------------------------------------------------------------

def ancestors(R, P, f):
    say = Say(R, f, 'ancestors of a type')
    R.seen(f)
    n0 = ('obj', 'name')
    I = Interp(P, hooks=make_hooks(P), max_states=2000, max_depth=14)
    try:
        outs = I.run(f, None, [n0, ('obj', 'registry')])
    except Budget:
        say.unk('too many paths')
        R.ob('walk over the ancestors', loc(f), False)
        return
    for o in outs:
        if o.kind != 'ret' or o.val is None:
            say.bad('raises')
            continue
        st = o.st
        r = I.val(st, o.val)
        if new_of(r) != 'Extend':
            say(None, 'answers %s' % fmt(r)[:50])
            continue
        up = [i for i in loops(st.ev) if any(pushes_reg(p[2]) for p in i['paths'])]
        if len(up) != 1:
            say.unk('%d loops up the parents' % len(up))
            continue
        i = up[0]
        L = climb(say, P, I, i, n0)
        if L is None:
            continue
        l = at(r)
        for n in ('meta_', 'attributes_'):
            if read(st, src(l, n)) not in (NOLIST, ('empty',)):
                say.unk('the answer carries %s' % n.rstrip('_'))
        fl = [x['n'] for x in P.recs['refract::dsd::Extend']['fields'] if not x.get('static')][0]
        D = ('fld', ('fld', l, 'data_'), fl)
        segs = describe(st, read(st, D))
        if segs is None:
            say.unk('the parts of the answer: %s' % fmt(read(st, D))[:60])
            continue
        segs = [x for x in segs if not (x[0] == 'map' and x[1]['range'] is not None and x[1]['range'][2] == x[1]['range'][3])]
        circ = any(a[0] == 'eq' and v is True and any(x[0] == 'elem' and under_loc(x[1], L) or
                   x[0] == 'fld' and x[1][0] == 'elem' and under_loc(x[1][1], L) for x in a[1:])
                   for a, v in st.facts.items())
        sz = size_of(read(st, L))
        none = decide(st, mk_eq(sz, C(0))) is True or decide(st, ('T', sz)) is False
        if circ or none:
            if segs and not (none and all(x[0] == 'map' for x in segs)):
                say.unk('a circular type has parts')
            continue
        hv = read(st, ('fld', l, 'hasValue_'))
        if not segs or hv in (FALSE, C(0)):
            say.bad('the ancestors are lost')
            continue
        if len(segs) != 1 or segs[0][0] != 'map' or segs[0][1]['range'] is None:
            say.unk('the parts of the answer: %s' % [x[0] for x in segs])
            continue
        rg = segs[0][1]['range']
        if not under_loc(rg[1][1] if rg[1][0] == 'rev' else rg[1], L):
            say.unk('the parts come from %s' % fmt(rg[1])[:40])
            continue
        if rg[0] != 'rrange':
            say.bad('the nearest ancestor comes first: what it overrides would win')
        if rg[2] != C(0) or rg[3][0] != 'size':
            say.bad('takes the ancestors from %s to %s only' % (fmt(rg[2]), fmt(rg[3])[:30]))
        cont = rg[1][1] if rg[1][0] == 'rev' else rg[1]
        for kd, fa, vals in segs[0][2]:
            if len(vals) != 1:
                say.bad('%d parts for one ancestor' % len(vals))
            elif not (vals[0][0] == 'fld' and vals[0][2] == 'second' and vals[0][1][0] == 'elem'):
                say(False if vals[0] == NULL else None, 'a part is %s' % fmt(vals[0])[:50])
    R.ob('walk over the ancestors', loc(f), say.ok is True)


def under_loc(x, L):
    while isinstance(x, tuple) and x:
        if x == L:
            return True
        if x[0] == 'hv':
            x = x[2]
        else:
            return False
    return False


def pushes_reg(ev):
    return [e for e in ev if e[0] == 'push' and isinstance(e[2], tuple) and e[2][0] == 'rec']


def climb(say, P, I, i, n0):
    """one round: the ancestor is recorded if it was not yet, and the next one is its parent"""
    L = None
    ends = {id(fa): s for fa, s in (i.get('ends') or [])}
    for kd, fa, ev, val in i['paths']:
        S = ends.get(id(fa)) or FactsOnly(fa)
        ps = pushes_reg(ev)
        if kd in ('ret', 'brk'):
            if ps:
                say.unk('records an ancestor and stops')
            elif kd == 'ret' and not any(v is True and a[0] == 'eq' and any(x[0] == 'fld' and x[1][0] == 'elem' for x in a[1:])
                                         for a, v in fa.items()):
                fresh = [a for a, v in fa.items() if v is False and a[0] == 'forall' and a[2][0] == 'eq']
                (say.bad if fresh else say.unk)('gives up on an ancestor that was not seen before')
            continue
        if len(ps) != 1:
            say.bad('%d ancestors recorded in one round' % len(ps))
            continue
        L = ps[0][1]
        d = dict(ps[0][2][2])
        key, val2 = d.get(('fld', 'first')) or d.get('first'), d.get(('fld', 'second')) or d.get('second')
        if key is None or val2 is None:
            say.unk('an entry is %s' % fmt(ps[0][2])[:50])
            continue
        if val2[0] != 'clone' or val2[1][0] != 'at':
            say(None, 'an ancestor is recorded as %s' % fmt(val2)[:50])
            continue
        par = val2[1][1]
        if val2[2] != C(0x17):
            say(False if val2[2][0] == 'c' else None, 'an ancestor is copied with facets %s instead of all but its name '
                'and id' % fmt(val2[2]))
        if par[0] != 'hv' or len(par) < 3 or key[0] != 'hv':
            say.unk('records %s under %s' % (fmt(par)[:30], fmt(key)[:30]))
            continue
        # not recorded before
        new = None
        for a, v in fa.items():
            q = a[2] if a[0] == 'forall' else None
            if q and q[0] == 'eq' and v is False:
                for x, y in ((q[1], q[2]), (q[2], q[1])):
                    if y == key and x[0] == 'fld' and x[2] == 'first' and x[1][0] == 'elem' and under_loc(x[1][1], L):
                        new = a[1]
        if new is None:
            say.bad('an ancestor is recorded without a look whether it was seen before: types that name each other never end')
        else:
            lk = [j for j in loops(ev) if j['ix'] == new]
            if lk and lk[0]['range'] is not None and (lk[0]['range'][2] != C(0) or lk[0]['range'][3][0] != 'size'):
                say.bad('looks through a part of the recorded ancestors only')
        if decide(FactsOnly(fa), ('T', ('res', key))) is not False:
            say.bad('a type of the base kinds is recorded as an ancestor')
        if decide(FactsOnly(fa), ('T', par)) is not True:
            say.bad('an ancestor that is not there is recorded')
        # its annotation and the next one
        if S.__class__ is FactsOnly:
            say.unk('the end of a round is not known')
            continue
        base = src(at(val2), 'meta_')
        m = read(S, base)
        if not (m[0] == 'with' and m[2] == ('s', 'ref')):
            say(False if m == base or m[0] == 'with' else None, 'an ancestor does not say which type it is (%s)' % fmt(m)[-40:])
        else:
            text(say, S, m[3], key, 'the mark of an ancestor')
        nk, np_ = read(S, key[2]), read(S, par[2])
        if nk != ('fld', at(par), 'name_'):
            say(False if nk == key or nk[0] in ('s', 'obj') else None, 'the next type is %s, not the parent' % fmt(nk)[:40])
        if np_ != ('reg', nk):
            say(False if np_ == par or np_[0] == 'reg' else None, 'the next ancestor is %s' % fmt(np_)[:40])
        if read(i['prestore'], key[2]) != n0:
            say.bad('the walk starts from %s' % fmt(read(i['prestore'], key[2]))[:40])
        if read(i['prestore'], par[2]) != ('reg', n0):
            say(False if read(i['prestore'], par[2])[0] in ('c', 'reg') else None,
                'the walk starts from %s' % fmt(read(i['prestore'], par[2]))[:40])
    if L is None:
        say.unk('no ancestor recorded')
    return L


# ---- does it need expanding -------------------------------------------------------------------------------

def question(R, P, f, k):
    say = Say(R, f, 'whether %s needs expanding' % k)
    R.seen(f)
    I = Interp(P, hooks=make_hooks(P), max_states=1000, max_depth=10)
    s = St()
    V = ('fld', THIS, 'result')
    try:
        outs = I.run(f, THIS, [E], st=s)
    except Budget:
        say.unk('too many paths')
        outs = []
    for o in outs:
        if o.kind == 'throw':
            say.bad('raises')
            continue
        v = read(o.st, V)
        if v in (TRUE, C(1)):
            continue
        st = o.st
        if v not in (FALSE, C(0)):
            if v == V:
                say.bad('is not answered')
                continue
            st = assume(st.copy(), v, False)
            if st is None:
                continue
            if v[0] not in ('T', 'eq', 'not', 'lt'):
                say.unk('the answer is %s' % fmt(v)[:60])
                continue
        if any(null_in(a) for a in st.facts):
            continue
        no(say, P, st, k)
    R.ob('question asked of a kind', k, say.ok is True)


def no(say, P, st, k):
    """the answer is no: rightly?"""
    if k == 'Ref':
        say.bad('a reference is said to need nothing')
        return
    if any(v is True and a[0] == 'T' and a[1][0] == 'xable' for a, v in st.facts.items()):
        say.bad('no although a part needs it')
    if decide(st, ('T', ('res', NAME))) is not True:
        say.bad('no although the name %s' % ('is not reserved' if decide(st, ('T', ('res', NAME))) is False else
                                             'was not asked for'))
    if k in LEAF + ('Null', 'Holder'):
        return
    if decide(st, ('T', ('fld', E, 'hasValue_'))) is False:
        pass
    else:
        fl = [x['n'] for x in P.recs['refract::dsd::' + k]['fields'] if not x.get('static')]
        D = ('fld', E, 'data_')
        if k in SEQS:
            S = ('fld', D, fl[0])
            lp = [i for i in loops(st.ev) if i['range'] is not None and i['range'][1] == S]
            if not lp:
                say(None if any(i['range'] is None for i in loops(st.ev)) else False, 'no without a look at its children')
            for i in lp[:1]:
                if i['range'][2] != C(0) or i['range'][3] != size_of(S):
                    say.bad('no after a look at its children from %s to %s only' % (fmt(i['range'][2]), fmt(i['range'][3])[:30]))
                p = ('elem', S, i['ix'])
                for kd, fa, ev, val in i['paths']:
                    if kd in ('norm', 'cnt') and decide(FactsOnly(fa), ('T', ('xable', at(p)))) is not False and \
                            decide(FactsOnly(fa), ('T', p)) is not False:
                        say.bad('no although a child %s' % ('needs it' if decide(FactsOnly(fa), ('T', ('xable', at(p))))
                                                            else 'was not asked'))
        else:
            for n in (fl if k == 'Member' else fl[:1]):
                part(say, st, ('fld', D, n), n.rstrip('_'))
    if k == 'Enum':
        A = src(E, 'attributes_')
        ix = ('find', A, ('s', 'enumerations'))
        there = decide(st, mk_eq(ix, size_of(A)))
        if there is not True:
            part(say, st, ('fld', ('elem', A, ix), 'second'), 'enumerations')


def part(say, st, p, n):
    if decide(st, ('T', p)) is False:
        return
    d = decide(st, ('T', ('xable', at(p))))
    if d is not False:
        say.bad('no although its %s %s' % (n, 'needs it' if d else 'was not asked'))

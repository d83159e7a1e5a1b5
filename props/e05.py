"""E05: contents that are sequences keep their children in order; an object keeps one member per key."""
import refr
from absint import Interp, Budget, C, NULL, TRUE, FALSE, EMPTY, at, read, fmt, decide, mk_eq, mk_lt, size_of, mentions, add
from front import loc
from seqv import FactsOnly

RULE = 'children-in-order'
KRULE = 'one-member-per-key'
THIS = ('obj', 'this')
EL = ('obj', 'el')
POS, END = ('obj', 'p'), ('obj', 'q')
NAME = ('obj', 'name')
CLASSES = ('Array', 'Object', 'Extend', 'Option', 'Select')


def check(R, P):
    R.rule('Every operation of each content that is a sequence (begin, end, size, empty, insert, erase, clear, '
           'push_back; own or inherited) is followed on all paths with a symbolic sequence, element and position: the '
           'sequence it leaves must be the former one with exactly that change at exactly that place.')
    R.rule('Looking up, adding and appending a member of an object is followed on all paths: a member may be answered '
           'or replaced only where its key was found equal to the name, and one may be added only after every present '
           'child was found not to carry the name.')
    for c in CLASSES:
        one(R, P, c)
    R.floor('operation of a sequence content', 40)
    R.floor('keyed operation of the object', 3)


def list_field(P, cls):
    fl = [f for f in P.recs.get(cls, {'fields': []})['fields'] if not f.get('static')]
    return ('fld', THIS, fl[0]['n']) if len(fl) == 1 else None


def one(R, P, c):
    cls = 'refract::dsd::' + c
    E = list_field(P, cls)
    if E is None:
        R.lose('the sequence of ' + cls)
        return
    fs = []
    for q in P.recs:
        if q == cls or q.startswith('refract::dsd::container_traits<%s,' % cls):
            fs += [f for f in P.by_class(q) if f.get('body') is not None and not f.get('ck') and not f.get('imp')]
    own = {f['n'] for f in P.by_class(cls) if f.get('body') is not None}
    for f in sorted(fs, key=lambda f: (f['file'], f['line'], f['f'])):
        if f['n'] == 'push_back' and f['cls'] != cls and 'push_back' in own:
            continue    # hidden by the class's own
        j = {'begin': begin, 'end': end, 'size': size, 'empty': empty, 'insert': insert, 'erase': erase,
             'clear': clear, 'push_back': push, 'find': find, 'addMember': add_member}.get(f['n'])
        if j is None:
            continue
        a = args_of(P, f, E)
        if a is None:
            continue
        R.seen(f)
        I = Interp(P, hooks=refr.hooks(), max_states=1500)
        keyed = j in (find, add_member) or j is push and c == 'Object'
        if keyed and c == 'Object' and j is push:
            j = push_object
        kind = 'keyed operation of the object' if keyed else 'operation of a sequence content'
        try:
            outs = I.run(f, THIS, a)
        except Budget:
            R.undecided(loc(f), 'too many paths')
            continue
        ok = True
        for o in outs:
            if not possible(o.st.facts):
                continue
            if o.kind == 'ret':
                v = I.val(o.st, o.val) if o.val is not None else None
                res = j(P, o.st, v, E, a)
            elif o.kind == 'throw':
                res = None if same(o.st, E) else (False, 'raises after having changed the children')
            else:
                continue
            if res is None:
                continue
            msg = '%s::%s %s' % (c, f['n'], res[1])
            if res[0] is False:
                ok = False
                R.violate(loc(f), KRULE if keyed else RULE, msg, '%s::%s|%s' % (c, f['n'], res[1].split(' (')[0]))
            else:
                ok = None if ok else ok
                R.undecided(loc(f), msg)
        R.ob(kind, '%s %s::%s/%d (%d paths)' % (loc(f), c, f['n'], len(a), len(outs)), ok is True)


def possible(facts):
    """no constant or non-object stands where an element is read"""
    return True


def args_of(P, f, E):
    n, k = f['n'], len(f['ps'])
    if n in ('begin', 'end', 'size', 'empty', 'clear'):
        return [] if k == 0 else None
    if n == 'insert':
        return [('it', E, POS), EL] if k == 2 else None
    if n == 'erase':
        return [('it', E, POS), ('it', E, END)][:k] if k in (1, 2) else None
    if n == 'push_back':
        return [EL] if k == 1 else None
    if n == 'find':
        return [NAME] if k == 1 else None
    if n == 'addMember':
        return [NAME, EL] if k == 2 else None
    return None


def same(st, E):
    return read(st, E) == E and not any(l != E and mentions(l, E) for l in st.store)


def is_(st, a, b):
    return a == b or (a is not None and decide(st, mk_eq(a, b)) is True)


def odd(v):
    """a value the analysis has no reading of"""
    if v is None:
        return True
    return isinstance(v, tuple) and (bool(v[:1]) and v[0] in ('call', 'u', 'other', 'hv', 'free', 'out') or
                                     any(odd(x) for x in v if isinstance(x, tuple) and x))


def wrong(v, text):
    return (None if odd(v) else False), text % (fmt(v)[:80] if v is not None else 'nothing')


def begin(P, st, v, E, a):
    if not same(st, E):
        return False, 'changes the children'
    return None if v == ('it', E, C(0)) else wrong(v, 'answers %s')


def end(P, st, v, E, a):
    if not same(st, E):
        return False, 'changes the children'
    return None if v is not None and v[0] == 'it' and v[1] == E and is_(st, v[2], size_of(E)) else wrong(v, 'answers %s')


def size(P, st, v, E, a):
    if not same(st, E):
        return False, 'changes the children'
    return None if is_(st, v, size_of(E)) else wrong(v, 'answers %s')


def empty(P, st, v, E, a):
    if not same(st, E):
        return False, 'changes the children'
    d = decide(st, ('T', size_of(E)))
    b = decide(st, v) if v is not None else None
    if b is not None and d is not None:
        return None if b != d else (False, 'answers %s for %s children' % (str(b).lower(), 'some' if d else 'no'))
    if v == mk_eq(size_of(E), C(0)):
        return None
    if b is not None:
        return False, 'answers %s whatever the number of children' % str(b).lower()
    return wrong(v, 'answers %s')


def writes(st, E):
    return [l for l in st.store if l != E and mentions(l, E)]


def insert(P, st, v, E, a):
    e = read(st, E)
    if writes(st, E):
        return False, 'also changes a child'
    if e[0] == 'inserted' and e[1] == E and len(e[2]) == 2 and e[2][0][0] == 'it' and e[2][0][1] == E:
        p, x = e[2][0][2], e[2][1]
        if not is_(st, p, POS):
            return wrong(p, 'inserts at position %s')
    elif e[0] == 'push' and e[1] == E:
        x = e[2]
        if not is_(st, POS, size_of(E)):
            return False, 'appends instead of inserting at the position'
    else:
        return wrong(e, 'leaves %s')
    if x != EL:
        return wrong(x, 'inserts %s')
    if v is None or v[0] != 'it':
        return wrong(v, 'answers %s')
    return None if is_(st, v[2], POS) else wrong(v, 'answers %s')


def erased(st, e, E):
    """(lo, hi) of what a sequence term lost from E, or None"""
    if e == EMPTY:
        return C(0), size_of(E)
    if e[0] == 'erased' and e[1] == E:
        its = [x for x in (e[2] if e[2] and isinstance(e[2][0], tuple) else (e[2],))]
        if all(x[0] == 'it' and x[1] == E for x in its):
            lo = its[0][2]
            return lo, (its[1][2] if len(its) > 1 else add(lo, 1))
    return None


def erase(P, st, v, E, a):
    e = read(st, E)
    if writes(st, E):
        return False, 'also changes a child'
    lo, hi = POS, END if len(a) == 2 else add(POS, 1)
    x = erased(st, e, E)
    if x is None:
        if e == E:
            return None if is_(st, lo, hi) else (False, 'removes nothing')
        return wrong(e, 'leaves %s')
    if not (is_(st, x[0], lo) and is_(st, x[1], hi)):
        return False, 'removes from %s up to %s' % (fmt(x[0])[:40], fmt(x[1])[:40])
    if v is None or v[0] != 'it':
        return wrong(v, 'answers %s')
    return None if is_(st, v[2], lo) else wrong(v, 'answers %s')


def clear(P, st, v, E, a):
    e = read(st, E)
    x = erased(st, e, E)
    if x is None:
        if e == E and decide(st, ('T', size_of(E))) is False:
            return None
        return wrong(e, 'leaves %s')
    return None if is_(st, x[0], C(0)) and is_(st, x[1], size_of(E)) else (False, 'removes only from %s up to %s' % (
        fmt(x[0])[:40], fmt(x[1])[:40]))


def push(P, st, v, E, a):
    e = read(st, E)
    if writes(st, E):
        return False, 'also changes a child'
    if e == ('push', E, EL):
        return None
    if e[0] == 'inserted' and e[1] == E and len(e[2]) == 2 and e[2][1] == EL and is_(st, e[2][0][2], size_of(E)):
        return None
    return wrong(e, 'leaves %s')


# ---- objects ----------------------------------------------------------------
def reader(P, q, X):
    for f in P.named(q):
        if f.get('body') is not None and not f['ps']:
            I = Interp(P, hooks=refr.hooks())
            o = I.run(f, X, [])
            if len(o) == 1 and o[0].kind == 'ret':
                return I.val(o[0].st, o[0].val)
    return None


def key_atoms(P, p, name):
    """what it takes for a child to be a member whose key is the name, in the order it may be asked"""
    m = at(p)
    k = reader(P, 'refract::dsd::Member::key', ('fld', m, 'data_'))
    s = at(k)
    out = [('T', p), mk_eq(refr.elkind(p), refr.kc('Member')), ('T', ('fld', m, 'hasValue_')),
           ('T', k), mk_eq(refr.elkind(k), refr.kc('String')), ('T', ('fld', s, 'hasValue_'))]
    val = reader(P, 'refract::dsd::String::get', ('fld', s, 'data_'))
    if name is not None:
        out.append(mk_eq(val, name))
    return out, val


def carries(P, st, p, name):
    """True: all of it is known; False: some of it is known not to hold; else what is not known"""
    atoms, _ = key_atoms(P, p, name)
    vals = [decide(st, a) for a in atoms]
    if any(v is False for v in vals):
        return False
    return True if all(v is True for v in vals) else atoms[vals.index(None)]


def absent(P, st, E, name):
    """True: the path looked at every child and found none that carries the name"""
    if decide(st, ('T', size_of(E))) is False or size_of(E) == C(0):
        return True
    why = None
    for e in st.ev:
        if e[0] != 'loop':
            continue
        info = e[1]
        r = info['range']
        if r is None:
            why = why or 'odd'
            continue
        if r[1] != E or r[2] != C(0) or r[3] != size_of(E):
            continue
        if ('forall', info['ix'], mk_lt(info['ix'], size_of(E))) not in st.facts:
            continue
        p = ('elem', E, info['ix'])
        if all(carries(P, FactsOnly(fs), p, name) is False for kind, fs, ev, val in info['paths']
               if kind in ('norm', 'cont')):
            return True
    return why or False


def find(P, st, v, E, a):
    if not same(st, E):
        return False, 'changes the children'
    if v is None or v[0] != 'it' or v[1] != E:
        return wrong(v, 'answers %s')
    if is_(st, v[2], size_of(E)):
        r = absent(P, st, E, NAME)
        return None if r is True else ((None if r == 'odd' else False), 'answers "absent" without having found every '
                                       'child not to carry the name')
    r = carries(P, st, ('elem', E, v[2]), NAME)
    if r is True:
        return None
    if odd(v[2]) or v[2][0] not in ('ix', 'add', 'sum', 'c'):
        return None, 'answers %s' % fmt(v)[:80]
    return False, 'answers a child that was not found to carry the name'


def keyed_change(P, st, E, base, name):
    """base is E without exactly the member that carries the name, if any"""
    if base == E:
        r = absent(P, st, E, name)
        return None if r is True else ((None if r == 'odd' else False), 'adds without having found every child not to '
                                       'carry the name')
    x = erased(st, base, E)
    if x is None:
        return wrong(base, 'first makes it %s')
    if not is_(st, x[1], add(x[0], 1)):
        return False, 'removes from %s up to %s' % (fmt(x[0])[:40], fmt(x[1])[:40])
    return None if carries(P, st, ('elem', E, x[0]), name) is True else (
        False, 'removes a child that was not found to carry the name')


def appended(st, e):
    """(former sequence, added) of a sequence term that gained one at the end"""
    if e[0] == 'push':
        return e[1], e[2]
    if e[0] == 'inserted' and len(e[2]) == 2 and e[2][0][0] == 'it' and is_(st, e[2][0][2], size_of(e[1])):
        return e[1], e[2][1]
    return None


def add_member(P, st, v, E, a):
    e = read(st, E)
    x = appended(st, e)
    if x is None:
        return wrong(e, 'leaves %s')
    r = keyed_change(P, st, E, x[0], NAME)
    if r is not None:
        return r
    m = x[1]
    if m[0] != 'new' or refr.kind_of(m[1][3]) != 'Member':
        return wrong(m, 'adds %s')
    m = m[1]
    if decide(st, read(st, ('fld', m, 'hasValue_'))) is not True:
        return False, 'adds a member without content'
    d = ('fld', m, 'data_')
    I = Interp(P, hooks=refr.hooks())
    k = ask(P, st, 'refract::dsd::Member::key', d)
    if k is None or k[0] != 'new' or refr.kind_of(k[1][3]) != 'String':
        return wrong(k, 'adds a member whose key is %s')
    s = ask(P, st, 'refract::dsd::String::get', ('fld', k[1], 'data_'))
    if decide(st, read(st, ('fld', k[1], 'hasValue_'))) is not True or s != NAME:
        return wrong(s, 'adds a member whose key holds %s')
    w = ask(P, st, 'refract::dsd::Member::value', d)
    if w != EL:
        return wrong(w, 'adds a member whose value is %s')
    if v is None or v[0] != 'it':
        return wrong(v, 'answers %s')
    return None if is_(st, v[2], size_of(x[0])) else (False, 'answers position %s' % fmt(v[2])[:60])


def ask(P, st, q, X):
    for f in P.named(q):
        if f.get('body') is not None and not f['ps']:
            I = Interp(P, hooks=refr.hooks())
            o = I.run(f, X, [], st.copy())
            if len(o) == 1 and o[0].kind == 'ret':
                return I.val(o[0].st, o[0].val)
    return None


def push_object(P, st, v, E, a):
    e = read(st, E)
    x = appended(st, e)
    if x is None:
        return wrong(e, 'leaves %s')
    base, el = x
    if el != EL:
        return wrong(el, 'appends %s')
    atoms, val = key_atoms(P, EL, None)
    vals = [decide(st, z) for z in atoms]
    if base == E and any(z is False for z in vals):
        return None
    if base != E and any(z is False for z in vals):
        return False, 'removes a child although what is appended has no key'
    if base == E and absent(P, st, E, val) is True:
        return None
    if not all(z is True for z in vals):
        if base == E:
            return False, 'appends without having looked at the key of what is appended'
        return False, 'removes a child without having looked at the key of what is appended'
    return keyed_change(P, st, E, base, val)

"""E07: named types: reserved names, one type per name, and an ancestor search that ends."""
import refr
from absint import Interp, Budget, C, NULL, TRUE, FALSE, EMPTY, at, read, fmt, decide, mk_eq, mk_lt, mk_not, size_of, mentions
from front import loc
from spec import odd

RULE = 'reserved-names'
TRULE = 'one-type-per-name'
ARULE = 'ancestor-search-ends'
KINDS = refr.KINDS
THIS = ('obj', 'this')
NAME = ('obj', 'name')
BASES = {'boolean': 'Boolean', 'number': 'Number', 'string': 'String', 'array': 'Array', 'object': 'Object',
         'enum': 'Enum', 'null': 'Null'}
RES = 'refract::isReserved'
FIND = 'refract::Registry::find'


def check(R, P):
    R.rule('The table of reserved names is read from its initialiser: it must hold exactly the names of the kinds of '
           'element that have one, and "generic"; the search over it must be one that finds every entry and nothing '
           'else, which for a binary search takes a table in the order of the comparison.')
    R.rule('Every operation of the registry is followed on all paths: a type is put in only under the text of its "id", '
           'which is not reserved and was not there; looking up, removing and clearing do exactly that; a new registry '
           'holds the seven base types, each an empty element of its kind.')
    R.rule('The search for the root ancestor is followed on all paths: it steps to the type its name names, answers '
           'only where no further step is possible, and may go on only where the step leads to a type not met before.')
    names = reserved(R, P)
    T = registry(R, P, names)
    ancestor(R, P)
    R.floor('reserved name', 12)
    R.floor('reserved name query', 2)
    R.floor('operation of the registry', 4)
    R.floor('base type of a new registry', 7)
    R.floor('root ancestor search', 1)


# ---- reserved names --------------------------------------------------------------------------------
def literals(n):
    """the string literals of an initialiser, in order"""
    out = []
    if isinstance(n, dict):
        if n.get('k') == 'str':
            return [n['v']]
        for k in n:
            out += literals(n[k])
    elif isinstance(n, list):
        for x in n:
            out += literals(x)
    return out


def kind_names(P):
    res = {}
    for u, g in P.gvars.items():
        for k in KINDS:
            if g['q'] == 'refract::dsd::%s::name' % k and g.get('e') is not None:
                ls = literals(g['e'])
                if len(ls) == 1:
                    res[k] = (ls[0], g)
    return res


def text_of(v):
    if v[0] == 'it' and v[2] == C(0):
        return v[1]
    return v


def reserved(R, P):
    kn = kind_names(P)
    want = {n for n, g in kn.values() if n} | {'generic'}
    if len(kn) < 13:
        R.lose('names of the kinds (%d of 13 found)' % len(kn))
    back = {}
    for k, (n, g) in sorted(kn.items()):
        if n and n in back:
            R.violate('%s:%d' % (g['file'], g['line']), RULE, '%s and %s go by the same name "%s"' % (back[n], k, n), 'name|' + n)
        back[n] = k
    for f in P.named(RES):
        if f.get('body') is None:
            continue
        R.seen(f)
        # the other overload may be asked, as long as one decides
        ch = P.ty(f['ps'][0]['t'])['k'] == 'ptr'
        I = Interp(P, hooks=refr.hooks(), max_states=300)
        try:
            outs = I.run(f)
        except Budget:
            R.undecided(loc(f), 'too many paths')
            continue
        w = ('obj', f['ps'][0]['n'])
        ok = True
        for o in outs:
            if o.kind != 'ret':
                continue
            v = I.val(o.st, o.val)
            r = asked(P, R, f, o.st, v, w, want)
            if r is None:
                ok = None
                R.undecided(loc(f), 'how the answer %s comes about is not followed' % fmt(v)[:60])
            elif r is not True:
                ok = False
                R.violate(loc(f), RULE, 'isReserved: ' + r, 'isReserved|' + r[:60])
        R.ob('reserved name query', '%s (%d paths)' % (loc(f), len(outs)), ok is True)
    return want


TABLES = {}


def table(P, R, cont, want, f):
    """the entries of a constant table, judged once"""
    if cont[0] != 'gv':
        return None
    g = P.gvars.get(cont[1])
    if g is None or g.get('e') is None:
        return None
    t = P.ty(g['t'])
    if not (g.get('cx') or 'const' in t['s']):
        return None
    ls = literals(g['e'])
    if cont not in TABLES:
        TABLES[cont] = ls
        where = '%s:%d' % (g['file'], g['line'])
        for n in sorted(want):
            good = n in ls
            R.ob('reserved name', '%s "%s"' % (where, n), good)
            if not good:
                R.violate(where, RULE, 'the table of reserved names lacks "%s"' % n, 'lacks|' + n)
        for n in sorted(set(ls) - want):
            R.violate(where, RULE, 'the table of reserved names holds "%s", which names no kind of element' % n, 'holds|' + n)
    return ls


def asked(P, R, f, st, v, w, want):
    """True, what is wrong, or None"""
    if v not in (TRUE, FALSE):
        return None
    ans = v == TRUE
    judged = False
    for a, d in st.facts.items():
        # binary search
        t = a[1] if a[0] == 'T' else None
        if t and t[0] == 'call' and t[1] == 'std::binary_search':
            judged = True
            if d == ans:
                r = searched(P, R, f, t, w, want)
                if r is not None:
                    return r
        for t in bounds(a):
            judged = True
            # the place the text would have: past the end, or taken by another
            if not ans and (d is True and a[0] == 'eq' and size_of(t[2]) in a[1:] or
                            equal_entry(a, w, d) == (t[2], False)):
                r = searched(P, R, f, t, w, want)
                if r is not None:
                    return r
        x = a[2] if a[0] == 'forall' else a
        eq = equal_entry(x, w, d)
        if eq is not None:
            judged = True
            c, e = eq
            ls = table(P, R, c, want, f)
            if ls is None:
                continue
            # an entry found equal; every entry found different
            if ans and e and a[0] != 'forall':
                return True
            if not ans and not e and a[0] == 'forall' and \
                    ('forall', a[1], ('lt', a[1], size_of(c))) in st.facts:
                return True
        if a[0] == 'eq' and a[1][0] == 'find' and a[1][2] in (w, text_of(w)):
            judged = True
            if d != ans and table(P, R, a[1][1], want, f) is not None:
                return True
        p = prefix(x, w, d)
        if p is not None:
            judged = True
            if ans and p:
                return 'takes a text for reserved which only begins with an entry'
        if mentions(a, w) and not about_length(a, w):
            judged = True
    if not judged:
        for n in sorted(want):
            if not ans and all(holds(a, d, w, n) for a, d in st.facts.items()):
                return 'answers no for "%s" without a look at the table' % n
        if ans:
            return 'answers yes without a look at the table'
    return None


def about_length(a, w):
    return mentions(a, ('size', w)) or mentions(a, size_of(w))


def holds(a, d, w, n):
    """whether a fact on the length of the text is one of the text n; True where it is about something else"""
    if a[0] in ('lt', 'eq'):
        x, y = (C(len(n)) if z == size_of(w) else z for z in a[1:3])
        if x[0] == 'c' and y[0] == 'c':
            return (x[1] < y[1] if a[0] == 'lt' else x[1] == y[1]) == d
    return True


def bounds(a):
    """lower_bound calls an atom is about"""
    out = []

    def walk(t):
        if isinstance(t, tuple):
            if t and t[0] == 'call' and len(t) > 5 and t[1] == 'std::lower_bound':
                if t not in out:
                    out.append(t)
                return
            for x in t:
                walk(x)
    walk(a)
    return out


def searched(P, R, f, t, w, want):
    cont, lo, hi, x, cmp = (t + (None,) * 7)[2:7]
    ls = table(P, R, cont, want, f)
    if ls is None or text_of(x) != w and x != w:
        return None
    if lo != C(0) or hi != size_of(cont):
        return 'searches only part of the table (%s up to %s)' % (fmt(lo), fmt(hi))
    order = less(P, cmp, ls)
    if order is None:
        return None
    if order != '<':
        return 'compares the names by "%s", which is not the order of the table' % order
    if ls != sorted(ls) or len(set(ls)) != len(ls):
        i = [i for i in range(1, len(ls)) if ls[i - 1] >= ls[i]]
        return 'searches a table that is out of order at "%s"' % ls[i[0]]
    return True


def compares(x, name):
    """(entry, other operands) of a call comparing an entry"""
    if x[0] == 'call' and x[1].rsplit('::', 1)[-1] == name:
        l = [z for z in x[2:] if z is not None]
        es = [z for z in l if z[0] == 'elem']
        if len(es) == 1:
            return es[0], [z for z in l if z is not es[0]]
    return None


def equal_entry(a, w, d):
    """(container, equal or not) when the fact is about an element being the text w"""
    if a[0] == 'T':
        c = compares(a[1], 'strcmp')
        if c and any(text_of(z) == w or z == w for z in c[1]):
            return c[0][1], not d
    if a[0] != 'eq':
        return None
    for x, y in ((a[1], a[2]), (a[2], a[1])):
        if x[0] == 'elem' and (y == w or text_of(y) == w):
            return x[1], d
        if y == C(0):
            c = compares(x, 'strcmp')
            if c and any(text_of(z) == w or z == w for z in c[1]):
                return c[0][1], d
    return None


def prefix(a, w, d):
    """whether the fact says that the text begins (True) or does not begin (False) with an entry"""
    x = a[1] if a[0] == 'T' else None
    if a[0] == 'eq' and C(0) in a[1:]:
        x = a[1] if a[2] == C(0) else a[2]
    c = compares(x, 'strncmp') if x else None
    if c is None or not any(text_of(z) == w or z == w for z in c[1]):
        return None
    n = [z for z in c[1] if text_of(z) != w and z != w]
    if len(n) != 1 or not (n[0][0] == 'call' and n[0][1].endswith('strlen') and c[0] in n[0]):
        return None
    return not d if a[0] == 'T' else d


def less(P, cmp, names):
    """'<' when the comparison is that of the texts, another relation, or None"""
    if cmp is None or cmp[0] == 'empty' or cmp[0] == 'ctor' and cmp[1].startswith('std::less'):
        return None
    if cmp[0] != 'lam':
        return None
    f = P.fns.get(cmp[1])
    if f is None:
        return None
    I = Interp(P, hooks=refr.hooks(), max_states=50)
    a, b = ('obj', 'a'), ('obj', 'b')
    try:
        outs = I.run(f, THIS, [a, b])
    except Budget:
        return None
    rel, bound = set(), set()
    for o in outs:
        if o.kind != 'ret':
            return None
        v = I.val(o.st, o.val)
        for t, d in list(o.st.facts.items()) + [(v, True)]:
            if t[0] == 'T':
                t = t[1]
            neg = False
            while t[0] == 'not':
                t, neg = t[1], not neg
            if t[0] != 'lt':
                continue
            x, y = t[1], t[2]
            sg = None
            for c, z, s in ((x, y, 1), (y, x, -1)):
                if c[0] == 'call' and c[1].endswith('strcmp') and z[0] == 'c' and set(q for q in c[2:] if q is not None) <= {a, b}:
                    if len(set(q for q in c[2:] if q is not None)) == 1:
                        return 'one of the two alone'
                    if z != C(0):
                        return 'a difference of %s' % z[1]
                if c[0] == 'call' and c[1].endswith(('strcmp', 'strncmp')) and z == C(0):
                    p = [q for q in c[2:] if q is not None]
                    if c[1].endswith('strncmp'):
                        if len(p) != 3 or p[2][0] != 'c':
                            continue
                        bound.add(p.pop()[1])
                    if p == [a, b]:
                        sg = s
                    elif p == [b, a]:
                        sg = -s
            if x in (a, b) and y in (a, b) and x != y:
                return 'address'
            if sg is None:
                continue
            truth = d != neg
            if v in (TRUE, FALSE):
                rel.add(('<' if sg == 1 else '>') if truth == (v == TRUE) else ('>=' if sg == 1 else '<='))
            elif t is v or mentions(v, t):
                rel.add(('<' if sg == 1 else '>') if not neg else ('>=' if sg == 1 else '<='))
    # only the first so many characters are looked at: the same where every entry and its end fall within them
    if bound and min(bound) <= max(len(x) for x in names):
        return 'the first %d characters' % min(bound)
    return rel.pop() if len(rel) == 1 else None


# ---- the registry -------------------------------------------------------------------------------------
def registry(R, P, names):
    cls = 'refract::Registry'
    rec = P.recs.get(cls)
    fl = [f for f in rec['fields'] if not f.get('static')] if rec else []
    if len(fl) != 1 or 'map' not in P.ty(fl[0]['t'])['s']:
        R.lose('the map of Registry')
        return None
    T = ('fld', THIS, fl[0]['n'])
    for f in sorted(P.by_class(cls), key=lambda f: (f['file'], f['line'], f['f'])):
        if f.get('body') is None or f.get('imp'):
            continue
        if f.get('n') == '(ctor)' or f['b'].endswith('(ctor)'):
            if not f['ps']:
                fresh(R, P, f, T)
            continue
        j = {'find': find, 'add': add, 'remove': remove, 'clear': clear}.get(f['n'])
        if j is None:
            continue
        R.seen(f)
        I = Interp(P, hooks=refr.hooks(), max_states=800, noinline={RES})
        try:
            outs = I.run(f, THIS, [('obj', p['n']) if False else None for p in f['ps']])
        except Budget:
            R.undecided(loc(f), 'too many paths')
            continue
        p0 = ('obj', f['ps'][0]['n']) if f['ps'] else None
        ok = True
        for o in outs:
            if o.kind not in ('ret', 'throw'):
                continue
            v = I.val(o.st, o.val) if o.kind == 'ret' and o.val is not None else None
            r = j(o.st, o.kind, v, T, p0)
            if r is None:
                continue
            if r[0] is False:
                ok = False
                R.violate(loc(f), TRULE, 'Registry::%s %s' % (f['n'], r[1]), 'Registry::%s|%s' % (f['n'], r[1][:60]))
            else:
                ok = None if ok else ok
                R.undecided(loc(f), 'Registry::%s %s' % (f['n'], r[1]))
        R.ob('operation of the registry', '%s %s (%d paths)' % (loc(f), f['n'], len(outs)), ok is True)
    return T


def present(st, T, k):
    return decide(st, mk_not(mk_eq(('find', T, k), size_of(T))))


def find(st, kind, v, T, k):
    if kind == 'throw':
        return None, 'raises'
    if read(st, T) != T:
        return False, 'changes the types'
    p = present(st, T, k)
    e = ('fld', ('elem', T, ('find', T, k)), 'second')
    if v == NULL:
        return None if p is False or decide(st, e) is False else (False if p else None, 'answers nothing though the name is there')
    if v == e:
        return None if p else (False, 'answers an entry without having found one')
    return None, 'answers ' + fmt(v)[:80]


def key_of(st, T):
    """(key, stored value, overwrites) of the one entry put into the map, or None"""
    v = read(st, T)
    if v[0] == 'rec' and v[1] == T and len(v[2]) == 1:
        (k, w), = v[2]
        if k[0] == 'elem' and k[1][0] == 'find' and w[0] == 'rec' and w[2] and w[2][0][0] == ('fld', 'second'):
            return k[1][2], w[2][0][1], True
    if v[0] == 'mapins' and v[1] == T:
        a = v[2]
        if len(a) == 1 and a[0][0] == 'rec':
            d = dict(a[0][2])
            return d.get(('fld', 'first')), d.get(('fld', 'second')), False
        if len(a) == 2:
            return a[0], a[1], v[3] == 'insert_or_assign'
    return None


def id_text(st, k, el):
    """the key is the text of the "id" of the element, known to be a string"""
    a = ('fld', ('fld', at(el), 'meta_'), 'elements')
    if not (k[0] == 'fld' and k[1][0] == 'fld' and k[1][2] == 'data_'):
        return None
    e = k[1][1]
    if e[0] == 'at':
        e = e[1]
    if e[0] != 'fld' or e[2] != 'second' or e[1][0] != 'elem':
        return None
    ent = e[1]
    if ent[1] != a:
        return False, 'is kept under a text that is not its own meta\'s'
    if decide(st, mk_eq(('fld', ent, 'first'), ('s', 'id'))) is not True:
        return False, 'is kept under a text that is not found to be its "id"'
    if decide(st, mk_eq(('kind', ('at', e)), refr.kc('String'))) is not True:
        return False, 'is kept under an "id" that is not found to be a string'
    return True, ''


def reserved_fact(st, k):
    for a, d in st.facts.items():
        if a[0] == 'T' and a[1][0] == 'call' and a[1][1] == RES and text_of(a[1][-1]) == k:
            return d
    return None


def add(st, kind, v, T, el):
    now = read(st, T)
    if kind == 'throw':
        if now != T:
            return False, 'raises after having changed the types'
        for a, d in st.facts.items():
            if d and a[0] == 'T' and a[1][0] == 'call' and a[1][1] == RES:
                return None
            if not d and a[0] == 'forall' and a[2][0] == 'eq' and ('s', 'id') in a[2][1:]:
                return None
            if not d and a[0] == 'eq' and any(x[0] == 'kind' for x in a[1:]):
                return None
            if not d and a[0] == 'T' and a[1][0] == 'fld' and a[1][2] == 'second':
                return None
        return False, 'raises although the "id" is a text which is not reserved'
    if now == T:
        if v == TRUE:
            return False, 'reports a type as added which it does not keep'
        for a, d in st.facts.items():
            if a[0] == 'eq' and not d and any(x[0] == 'find' and x[1] == T for x in a[1:]):
                return None
            if d and a[0] == 'T' and a[1][0] == 'call' and a[1][1] == RES:
                return None
        if v == FALSE and decide(st, el) is False:
            return None
        return False, 'refuses a type whose name is neither taken nor reserved'
    k = key_of(st, T)
    if k is None or k[0] is None:
        return None, 'leaves the types as %s' % fmt(now)[:80]
    key, val, over = k
    r = id_text(st, key, el)
    if r is None:
        return (None if odd(key) else False), 'keeps the type under %s, not under its "id"' % fmt(key)[:60]
    if not r[0]:
        return False, r[1]
    if val != el:
        return (None if val is None or val[0] in ('u', 'call') else False), 'keeps %s rather than the type given' % fmt(val)[:60]
    if reserved_fact(st, key) is not False:
        return False, 'keeps a type under a name not found to be unreserved'
    p = present(st, T, key)
    if p is not False and over and decide(st, ('fld', ('elem', T, ('find', T, key)), 'second')) is not False:
        return False, 'puts the type in place of one that may be there already'
    if v in (TRUE, FALSE) and not over:
        for a, d in st.facts.items():
            if a[0] == 'T' and a[1][0] == 'fld' and a[1][2] == 'second' and a[1][1][0] == 'call' and a[1][1][2] == T:
                return None if d == (v == TRUE) else (False, 'reports the opposite of what it did')
    if v not in (TRUE, FALSE):
        return None if not over and v[0] == 'fld' and v[2] == 'second' else (None, 'answers ' + fmt(v)[:60])
    if v == FALSE:
        return False, 'reports a type it keeps as not added'
    return None


def remove(st, kind, v, T, k):
    now = read(st, T)
    p = present(st, T, k)
    gone = ('erased', T, (('it', T, ('find', T, k)),))
    if kind == 'throw':
        return None, 'raises'
    if now == T:
        if v == FALSE and p is False:
            return None
        return (False if p is not False else None), 'leaves a type it was to remove' if p is not False else 'answers %s' % fmt(v)
    if now == gone:
        if p is not True:
            return False, 'removes without having found the name'
        return None if v == TRUE else (False, 'reports a removed type as not there')
    if now == ('erased', T, (k,)):
        r = ('call', 'std::map::erase', T, k)
        t = v if v not in (TRUE, FALSE) else None
        d = decide(st, ('T', r))
        if d is None:
            d = decide(st, mk_not(mk_eq(r, C(0))))
        if d is None:
            d = decide(st, mk_lt(C(0), r))
        if t is None and d is not None:
            return None if d == (v == TRUE) else (False, 'reports the opposite of what it did')
        if t is not None and mentions(t, r):
            return None
        return None, 'answers %s' % fmt(v)[:60]
    if now == EMPTY:
        return False, 'removes every type'
    if now[0] == 'erased' and now[1] == T and not odd(now[2]):
        return False, 'removes another type than the one of that name'
    return None, 'leaves the types as %s' % fmt(now)[:80]


def clear(st, kind, v, T, k):
    now = read(st, T)
    if now == EMPTY:
        return None
    if now == T:
        return False, 'leaves the types'
    return None, 'leaves the types as %s' % fmt(now)[:80]


def fresh(R, P, f, T):
    R.seen(f)
    I = Interp(P, hooks=refr.hooks(), max_states=200)
    try:
        outs = I.run(f, THIS)
    except Budget:
        R.undecided(loc(f), 'too many paths')
        return
    for o in outs:
        if o.kind == 'throw':
            continue
        v = read(o.st, T)
        while v[0] == 'agg' and len(v) == 3:
            v = v[2]
        got = {}
        odd_ = False
        if v[0] == 'rec' and v[1][0] in ('mapins', 'empty', 'ctor', 'agg'):
            for k, w in v[2]:
                t = k[1][2] if k[0] == 'elem' and k[1][0] == 'find' else ('?',)
                if t[0] in ('s', 'strlit') and w[0] == 'rec' and dict(w[2]).get(('fld', 'second'), ('?',))[0] == 'new':
                    got[t[1]] = dict(w[2])[('fld', 'second')]
                else:
                    odd_ = True
            v = v[1]
        while v[0] == 'mapins':
            a = v[2]
            if len(a) == 1 and a[0][0] == 'rec':
                d = dict(a[0][2])
                k, w = d.get(('fld', 'first')), d.get(('fld', 'second'))
            elif len(a) == 2:
                k, w = a
            else:
                k = w = None
            t = k[1] if k is not None and k[0] in ('s', 'strlit') else None
            if t is None or w is None or w[0] != 'new':
                odd_ = True
            else:
                got[t] = w
            v = v[1]
        if v != EMPTY and not (v[0] == 'ctor' and len(v) == 2) or odd_:
            R.undecided(loc(f), 'what a new registry holds is not followed: ' + fmt(v)[:80])
            for n in BASES:
                R.ob('base type of a new registry', '%s %s' % (loc(f), n), False)
            continue
        for n, k in BASES.items():
            w = got.get(n)
            ok = True
            if w is None:
                ok = False
                R.violate(loc(f), TRULE, 'a new registry does not know "%s"' % n, 'base|' + n)
            else:
                t = str(at(w)[-1])
                kk = refr.kind_of(t)
                if kk is None:
                    ok = None
                    R.undecided(loc(f), '"%s" of a new registry is %s' % (n, fmt(w)[:60]))
                elif kk != k:
                    ok = False
                    R.violate(loc(f), TRULE, 'a new registry knows "%s" as an element of kind %s' % (n, kk), 'base|%s|%s' % (n, kk))
                elif read(o.st, ('fld', at(w), 'hasValue_')) != C(0):
                    ok = False
                    R.violate(loc(f), TRULE, '"%s" of a new registry has a value' % n, 'base|%s|value' % n)
            R.ob('base type of a new registry', '%s %s' % (loc(f), n), ok is True)
        for n in sorted(set(got) - set(BASES)):
            R.violate(loc(f), TRULE, 'a new registry holds "%s"' % n, 'base|' + n)


# ---- the ancestor search ---------------------------------------------------------------------------------
def ancestor(R, P):
    for f in P.named('refract::FindRootAncestor'):
        if f.get('body') is None:
            continue
        R.seen(f)
        reg = ('obj', f['ps'][1]['n'])
        nm = ('obj', f['ps'][0]['n'])

        def step(x):
            return ('call', FIND, reg, ('fld', at(x), 'name_'))
        I = Interp(P, hooks=refr.hooks(), max_states=800, noinline={RES, FIND})
        try:
            outs = I.run(f)
        except Budget:
            R.undecided(loc(f), 'too many paths')
            continue
        first = ('call', FIND, reg, nm)
        ok = True

        def say(good, msg):
            nonlocal ok
            if good is False:
                ok = False
                R.violate(loc(f), ARULE, 'FindRootAncestor ' + msg, 'FindRootAncestor|' + msg[:60])
            else:
                ok = None if ok else ok
                R.undecided(loc(f), 'FindRootAncestor ' + msg)
        loops = {}
        none = set()

        def nothing(l, i):
            return ('hv', i['ix'][1], l, None) in none
        for o in outs:
            if o.kind != 'ret':
                continue
            v = I.val(o.st, o.val)
            if v[0] == 'hv' and decide(o.st, ('T', v)) is False:
                none.add(v)
            ls = [e[1] for e in o.st.ev if e[0] == 'loop']
            for i in ls:
                loops[i['ix']] = i
            if v == NULL:
                if decide(o.st, ('T', first)) is not False and not any(
                        d is False and a[0] == 'T' and a[1][0] == 'hv' for a, d in o.st.facts.items()):
                    say(None, 'answers nothing on a path that is not followed')
                continue
            if not stops(o.st, v, step, next_of(v, ls, step)):
                walked = v[0] == 'call' or v[0] == 'hv' and any(
                    v == ('hv', i['ix'][1], l, None) and i.get('ends') and
                    all(read(s, l) == step(v) for _, s in i['ends']) for i in ls for l in i['changed'])
                flags = any(a[0] == 'T' and a[1][0] == 'hv' and a[1] != v for a in o.st.facts)
                if walked and not flags:
                    say(False, 'may answer a type whose own parent is a further type')
                else:
                    say(None, 'answers ' + fmt(v)[:60])
        for i in loops.values():
            ch = i['changed']
            ends = i.get('ends')
            if ends is None:
                say(None, 'has a loop whose rounds are not followed')
                continue
            for facts, s in ends:
                cur = [l for l in ch if ptr_like(read(i['prestore'], l), s, l, step)]
                if not cur:
                    asks = [x for a in facts if a not in i['prefacts'] for x in inner(a) if x[:2] == ('call', FIND)]
                    if asks and not any(y[0] == 'hv' for x in asks for y in inner(x)):
                        say(False, 'asks for the parent of the same type in every round')
                        continue
                    say(None, 'has a loop that is not a walk over the types')
                    continue
                l = cur[0]
                hv = ('hv', i['ix'][1], l, None)
                new = read(s, l)
                pre = read(i['prestore'], l)
                if pre != first and not mentions(pre, first):
                    say(None, 'starts from ' + fmt(pre)[:60])
                if new != step(hv):
                    say(None, 'steps to ' + fmt(new)[:60])
                    continue
                if unseen(s, facts, new) or met(facts, hv, True):
                    continue
                about = [a for a in facts if a not in i['prefacts'] and (mentions(a, hv) or mentions(a, new))]
                if len(ch) == 1 or all(a in (('T', hv), ('T', new)) or reserved_name(a) for a in about):
                    say(False, 'goes on to a type without having found that it was not met before: it does not end on '
                               'types that name each other')
                else:
                    say(None, 'goes on in a way that is not followed')
        for i in loops.values():
            for facts, s in i.get('ends') or []:
                for l in i['changed']:
                    new = read(s, l)
                    if ptr_like(None, s, l, step) and decide(s, ('T', new)) is not True and nothing(l, i):
                        say(False, 'answers nothing where the parent of a type is unknown')
        R.ob('root ancestor search', '%s (%d paths, %d loops)' % (loc(f), len(outs), len(loops)), ok is True)


def inner(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from inner(x)


def reserved_name(a):
    return a[0] == 'T' and a[1][:2] == ('call', RES)


def ptr_like(pre, s, l, step):
    v = read(s, l)
    return v[0] == 'call' and v[1] == FIND


def next_of(v, ls, step):
    """the walked local that is always one step ahead of the local v is"""
    for i in ls:
        n = i['ix'][1]
        if v[0] != 'hv' or v[1] != n or not i.get('ends'):
            continue
        for l in i['changed']:
            h = ('hv', n, l, None)
            if h != v and all(read(s, v[2]) == h and read(s, l) == step(h) for _, s in i['ends']):
                return h
    return None


def stops(st, v, step, ahead=None):
    """no further step from v: it is none, reserved, its parent unknown or met before"""
    if decide(st, ('T', v)) is False:
        return True
    if reserved_fact(st, ('fld', at(v), 'name_')) is True:
        return True
    if ahead is not None and (decide(st, ('T', ahead)) is False or met(st.facts, ahead, False)):
        return True
    n = step(v)
    if decide(st, ('T', n)) is False or decide(st, mk_eq(n, v)) is True:
        return True
    return met(st.facts, n, False)


def met(facts, n, fresh):
    """a fact that n was put into a set for the first time (or not)"""
    for a, d in facts.items():
        if a[0] == 'T' and a[1][0] == 'fld' and a[1][2] == 'second' and a[1][1][0] == 'call' and \
                a[1][1][1] in ('std::set::insert', 'std::set::emplace', 'std::unordered_set::insert',
                               'std::unordered_set::emplace') and a[1][1][-1] == n and d == fresh:
            return True
        if a[0] == 'eq' and a[1][0] == 'find' and a[1][2] == n and d == fresh:
            return True
        if a[0] == 'eq' and a[2][0] == 'find' and a[2][2] == n and d == fresh:
            return True
        if not fresh and d and a[0] == 'eq' and n in a[1:] and any(x[0] == 'elem' for x in a[1:]):
            return True
        if fresh and a[0] == 'forall' and not d and a[2][0] == 'eq' and n in a[2][1:]:
            return True
    return False


def unseen(s, facts, n):
    return met(facts, n, True) or met(s.facts, n, True)

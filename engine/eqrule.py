"""What a path's facts imply about two objects of one type being equal, field by field."""
from absint import NULL, at, decide, mk_eq, mk_lt, mentions, read, size_of, subst
import re

SCALARS = {'int', 'uint', 'bool', 'flt', 'enum', 'ptr'}


def tname(P, tid):
    t = P.ty(tid)
    return t['s'].replace('const ', '')


def shape(P, tid):
    """('scalar',) | ('ptr', pointee) | ('vec', shape) | ('pair', a, b) | ('rec', q)"""
    t = P.ty(tid)
    if t['k'] in ('ref', 'rref'):
        return shape(P, t['p'])
    return shape_s(t['s'], t['k'], t.get('q'))


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c == '<':
            d += 1
        if c == '>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def shape_s(s, k=None, q=None):
    s = s.replace('const ', '').strip()
    m = re.match(r'^([\w:]+)<(.*)>$', s)
    if m:
        b, a = m.group(1), split_args(m.group(2))
        if b.endswith('unique_ptr'):
            return ('ptr', a[0])
        if b.endswith('basic_string'):
            return ('scalar',)
        if b.endswith('vector') or b.endswith('deque') or b.endswith('list'):
            return ('vec', shape_s(a[0]))
        if b.endswith('pair'):
            return ('pair', shape_s(a[0]), shape_s(a[1]))
        return ('rec', s)
    if s == 'bool':
        return ('scalar', 'bool')
    if s in ('int', 'unsigned int', 'unsigned', 'long', 'unsigned long', 'char', 'double', 'float', 'short'):
        return ('scalar',)
    if k in SCALARS or s.endswith('*'):
        return ('scalar',)
    return ('rec', s)


def elemof(l):
    return ('elemof', l)


def holds(st, atom, val):
    return decide(st, atom) is val


def equal(st, sh, l, r):
    """do the facts imply that the values at locations l and r are equal"""
    k = sh[0]
    a, b = read(st, l), read(st, r)
    if a == b or holds(st, mk_eq(a, b), True) or holds(st, mk_eq(('val', l), ('val', r)), True):
        return True
    if k == 'rec':
        return False
    ta, tb = decide(st, ('T', a)), decide(st, ('T', b))
    if sh == ('scalar', 'bool') and ta is not None and ta == tb:
        return True
    if k == 'ptr':
        if ta is False and tb is False:
            return True
        return holds(st, mk_eq(elemof(at(a)), elemof(at(b))), True)
    if k == 'vec':
        sa, sb = size_of(a), size_of(b)
        same = sa == sb or holds(st, mk_eq(sa, sb), True)
        if not same:
            return False
        if holds(st, mk_eq(sa, ('c', 0)), True):
            return True
        for f, v in st.facts.items():
            if f[0] == 'forall' and v and f[2][0] != 'lt':
                pass
        # every position compared: forall i < size: elements equal
        for ix in {f[1] for f, v in st.facts.items() if f[0] == 'forall' and v}:
            if not full_range(st, ix, sa, sb):
                continue
            fs = [f[2] for f, v in st.facts.items() if f[0] == 'forall' and v and f[1] == ix]
            if forall_equal(fs, sh[1], ('elem', l, ix), ('elem', r, ix)):
                return True
        return False
    if k == 'pair':
        return equal(st, sh[1], ('fld', l, 'first'), ('fld', r, 'first')) and \
            equal(st, sh[2], ('fld', l, 'second'), ('fld', r, 'second'))
    return False


def full_range(st, ix, sa, sb):
    """the quantified positions are all positions of a container of this size"""
    bounds = [f[2] for f, v in st.facts.items() if f[0] == 'forall' and v and f[1] == ix and f[2][0] == 'lt' and f[2][1] == ix]
    return any(b[2] in (sa, sb) for b in bounds)


def forall_equal(fs, sh, l, r):
    if mk_eq(l, r) in fs or mk_eq(('val', l), ('val', r)) in fs:
        return True
    if sh[0] == 'ptr':
        return mk_eq(elemof(at(l)), elemof(at(r))) in fs
    if sh[0] == 'pair':
        return forall_equal(fs, sh[1], ('fld', l, 'first'), ('fld', r, 'first')) and \
            forall_equal(fs, sh[2], ('fld', l, 'second'), ('fld', r, 'second'))
    return False


def differ(st, sh, l, r):
    """do the facts imply the values differ"""
    k = sh[0]
    a, b = read(st, l), read(st, r)
    if holds(st, mk_eq(a, b), False) and k != 'ptr' or holds(st, mk_eq(('val', l), ('val', r)), False):
        return True
    ta, tb = decide(st, ('T', a)), decide(st, ('T', b))
    if k in ('ptr', 'scalar') and ta is not None and tb is not None and ta != tb:
        return True
    if k == 'ptr':
        if False in (ta, tb) and holds(st, mk_eq(a, b), False):
            return True
        return holds(st, mk_eq(elemof(at(a)), elemof(at(b))), False)
    if k == 'vec':
        sa, sb = size_of(a), size_of(b)
        if holds(st, mk_eq(sa, sb), False) or holds(st, mk_lt(sa, sb), True) or holds(st, mk_lt(sb, sa), True):
            return True
        ixs = set()
        for f, v in st.facts.items():
            if f[0] == 'eq' and not v:
                for t in (f[1], f[2]):
                    collect_ix(t, l, ixs)
        return any(differ(st, sh[1], ('elem', l, i), ('elem', r, i)) for i in ixs)
    if k == 'pair':
        return differ(st, sh[1], ('fld', l, 'first'), ('fld', r, 'first')) or \
            differ(st, sh[2], ('fld', l, 'second'), ('fld', r, 'second'))
    return False


def collect_ix(t, l, out):
    if isinstance(t, tuple):
        if t[:1] == ('elem',) and len(t) == 3 and t[1] == l:
            out.add(t[2])
        for x in t:
            collect_ix(x, l, out)


def both(atom, L, R):
    return mentions(atom, L) and mentions(atom, R)


def known_atom(st, atom, L, R):
    """an atom whose meaning for equality the rules above understand: the mirror comparison of one place"""
    if atom[0] == 'forall':
        atom = atom[2]
    if atom[0] == 'lt':
        return True
    if atom[0] == 'eq':
        a, b = atom[1], atom[2]
        return subst(a, L, R) == b or subst(b, L, R) == a or subst(a, R, L) == b
    return False

"""Vocabulary for keyed lists (vector of pairs)."""
from absint import C, decide, mk_eq, read, size_of, project


def key_at(cval, ix):
    return ('fld', ('elem', cval, ix), 'first')


def no_entry(facts, cval, key):
    """the path knows that no entry of the list carries the key"""
    for a, v in facts.items():
        if a[0] == 'forall' and v is False and a[2] == mk_eq(key, key_at(cval, a[1])):
            return True
    n = size_of(cval)
    return n == C(0) or facts.get(('T', n)) is False or facts.get(mk_eq(n, C(0))) is True


def has_entry(facts, cval, ix, key):
    return facts.get(mk_eq(key, key_at(cval, ix))) is True


def entry_ix(facts, cval, key):
    for a, v in facts.items():
        if a[0] == 'eq' and v is True:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x == key and y[0] == 'fld' and y[2] == 'first' and y[1][0] == 'elem' and y[1][1] == cval:
                    return y[1][2]
    return None


def feasible(facts, cval, key):
    """not both: no entry carries the key, and this one does"""
    return not (no_entry(facts, cval, key) and entry_ix(facts, cval, key) is not None)

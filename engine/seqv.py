"""Reading of sequence values: which elements, in which order, a container term stands for."""
from absint import C, EMPTY, NULL, flat_events, mentions, read, size_of, at, decide


def loop_of(ev, n):
    """the loop event whose position variable is number n"""
    for e in ev:
        if e[0] == 'loop':
            if e[1]['ix'] == ('ix', n):
                return e[1]
            for p in e[1]['paths']:
                r = loop_of(p[2], n)
                if r is not None:
                    return r
    return None


def describe(st, term):
    """list of segments, or None when the construction is not understood:
    ('old', container) | ('one', value) | ('map', loop, [(facts, [values])]) | ('range', cont, lo, hi)
    | ('erased', it...) as last resort"""
    if term == EMPTY or term == ('ctor', 'std::vector') or term[0] == 'ctor' and len(term) == 2 and term[1].startswith('refract::dsd::'):
        return []
    k = term[0]
    if k == 'push':
        b = describe(st, term[1])
        return None if b is None else b + [('one', term[2])]
    if k == 'fromrange':
        x, y = term[1], term[2]
        if x[0] == 'it' and y[0] == 'it' and x[1] == y[1]:
            return [('range', x[1], x[2], y[2])]
        return None
    if k == 'assigned' and len(term) == 3:
        x, y = term[1], term[2]
        if x[0] == 'it' and y[0] == 'it' and x[1] == y[1]:
            return [('range', x[1], x[2], y[2])]
        return None
    if k == 'inserted':
        b = describe(st, term[1])
        vs = term[2]
        if b is not None and len(vs) == 3 and vs[0][0] == 'it' and vs[0][2] == size_of(term[1]):
            x, y = vs[1], vs[2]
            if x[0] == 'it' and y[0] == 'it' and x[1] == y[1]:
                return b + [('range', x[1], x[2], y[2])]
        return None
    if k == 'hv':
        info = loop_of(st.ev, term[1])
        if info is None:
            return None
        l = term[2]
        pre = describe(info['prestore'], read(info['prestore'], l))
        if pre is None:
            return None
        paths = []
        for kind, facts, ev, val in info['paths']:
            if kind in ('throw',):
                continue
            vals = []
            for e in ev:
                if e[0] == 'push' and e[1] == l:
                    vals.append(e[2])
                elif e[0] == 'loop':
                    for x in flat_events([e]):
                        x = x[0] if isinstance(x[0], tuple) else x
                        if len(x) > 1 and x[1] == l:
                            return None
                elif e[0] in ('insert', 'erase', 'clear', 'pop', 'swap', 'store', 'resize', 'assign') and e[1] == l:
                    return None
            paths.append((kind, facts, vals))
        return pre + [('map', info, paths)]
    if k in ('fld', 'obj', 'elem', 'at', 'lv', 'tmp', 'heap', 'arg'):
        return [('old', term)]
    return None


class FactsOnly:
    """enough of a state to ask decide()"""

    def __init__(self, facts):
        self.facts = facts
        self.store = {}
        self.kids = {}
        self.ev = ()


def copies_ptr(st, val, src, flags=15):
    """val is a full copy of the element the pointer value src refers to (or null for null)"""
    if val == ('clone', at(src), C(flags)):
        return True
    if val == NULL:
        return decide(st, ('T', src)) is False
    if val == src:
        return decide(st, ('T', src)) is False
    return False

"""E04: an annotation list is a map: one entry per key, found, replaced and removed by key."""
import refr
from absint import Interp, Budget, C, NULL, EMPTY, at, read, fmt, project, decide, mk_eq, size_of, mentions
from front import loc
from mapv import no_entry, has_entry, entry_ix, feasible, key_at
from seqv import describe, loop_of

CLS = 'refract::InfoElements'
RULE = 'one-entry-per-key'
THIS = ('obj', 'this')
KEY = ('obj', 'key')
VAL = ('obj', 'value')


def check(R, P):
    R.rule('Every member function of the annotation list is followed on all paths. A lookup may answer an entry only '
           'after finding its key equal, and "absent" only after finding every key different; an entry may be added '
           'only under that same "absent" knowledge, and replaced or removed only where the key was found equal.')
    R.rule('Appending a value to a list annotation is followed for every instance: the value must end in the list, '
           'must be added only when every present one was found different, and nothing else may change.')
    if CLS not in P.recs:
        R.lose('class ' + CLS)
        return
    fl = [f for f in P.recs[CLS]['fields'] if not f.get('static')]
    if len(fl) != 1:
        R.lose('the single list of ' + CLS)
        return
    L = ('fld', THIS, fl[0]['n'])
    fs = [f for f in P.by_class(CLS) if f.get('body') is not None and not f.get('imp')]
    seen = set()
    for f in sorted(fs, key=lambda f: (f['line'], f['f'])):
        j = {'find': find, 'set': setter, 'erase': erase, 'claim': claim, 'clone': clone, 'clear': clear,
             'size': size, 'empty': empty, 'begin': begin, 'end': end}.get(f['n'])
        if j is None or f.get('ck'):
            continue
        seen.add(f['n'])
        R.seen(f)
        I = Interp(P, hooks=refr.hooks(), max_states=800)
        args = []
        for p in f['ps']:
            t = P.ty(p['t'])
            args.append(('obj', {'basic_string': 'key'}.get(tag(t['s']), 'value' if 'IElement' in t['s'] and
                                                              'iterator' not in t['s'] else 'p')))
        if 'iterator' in ''.join(P.ty(p['t'])['s'] for p in f['ps']):
            args = [('it', L, ('obj', 'ix'))]
        try:
            outs = [o for o in I.run(f, THIS, args) if o.kind == 'ret' and feasible(o.st.facts, L, KEY)]
        except Budget:
            R.undecided(loc(f), 'too many paths')
            continue
        ok = True
        for o in outs:
            res = j(P, o.st, I.val(o.st, o.val) if o.val is not None else None, o.val, L, f, args)
            if res is None:
                continue
            if res[0] is False:
                ok = False
                R.violate(loc(f), RULE, '%s: %s' % (f['n'], res[1]), '%s|%s' % (f['n'], res[1].split(' (')[0]))
            else:
                ok = None if ok else ok
                R.undecided(loc(f), '%s: %s' % (f['n'], res[1]))
        R.ob('operation of the annotation list', '%s %s/%d (%d paths)' % (loc(f), f['n'], len(f['ps']), len(outs)), ok is True)
    for n in ('find', 'set', 'erase', 'claim'):
        if n not in seen:
            R.lose('%s of the annotation list' % n)
    R.floor('operation of the annotation list', 10)
    append(R, P, fl[0]['n'])


def tag(s):
    if 'basic_string' in s and 'iterator' not in s and 'pair' not in s:
        return 'basic_string'
    return s


def same_list(st, L):
    v = read(st, L)
    if v != L:
        return False
    return not any(l != L and mentions(l, L) for l in st.store)


def find(P, st, v, raw, L, f, args):
    if v is None or v[0] != 'it' or v[1] != L:
        return None, 'answers %s' % (v and fmt(v)[:60])
    n = size_of(L)
    if not same_list(st, L):
        return False, 'a lookup changes the list'
    if v[2] in (n, size_of(read(st, L))) or decide(st, mk_eq(v[2], n)) is True:
        if no_entry(st.facts, L, KEY):
            return None
        if unread(st):
            return None, 'looks through the list in a way not followed'
        return False, 'answers "absent" without having found every key different'
    if has_entry(st.facts, L, v[2], KEY):
        return None
    if v[2] in (C(0),) and no_entry(st.facts, L, KEY) and decide(st, ('T', n)) is False:
        return None
    if unknown(v[2]) or unread(st):
        return None, 'answers position %s' % fmt(v[2])[:60]
    return False, 'answers an entry whose key was not found equal (position %s)' % fmt(v[2])[:60]


def unread(st):
    return any(e[0] == 'loop' and e[1]['range'] is None for e in st.ev)


def unknown(v):
    return isinstance(v, tuple) and (v[:1] and v[0] in ('call', 'u', 'other', 'hv', 'free') or
                                     any(unknown(x) for x in v if isinstance(x, tuple)))


def pair_parts(p):
    return project(p, ('fld', 'first')), project(p, ('fld', 'second'))


def set_effect(P, st, facts, L, key, want, base):
    """None when the list ends as: entry for key holds want, everything else as in base"""
    v = read(st, L)
    if v[0] == 'push' and v[1] == base:
        k, x = pair_parts(v[2])
        if k != key:
            return False, 'adds an entry under %s' % fmt(k)[:60]
        if x != want:
            return False, 'adds an entry holding %s' % fmt(x)[:60]
        if not no_entry(facts, base, key):
            if unread(st):
                return None, 'looks through the list in a way not followed'
            return False, 'adds an entry without having found every key different'
        return None
    ix = entry_ix(facts, base, key)
    writes = {l: x for l, x in st.store.items() if l != L and mentions(l, L)}
    if ix is not None and not (v[0] in ('push', 'erased', 'inserted') or v == EMPTY):
        tgt = ('fld', ('elem', L, ix), 'second')
        if read(st, tgt) == want:
            others = [l for l in writes if l != tgt]
            if others:
                return False, 'also changes %s' % fmt(others[0])[:60]
            return None
        return False, 'leaves %s in the entry' % fmt(read(st, tgt))[:60]
    if v == base and not writes:
        return False, 'leaves the list as it was'
    if unknown(v):
        return None, 'leaves the list as %s' % fmt(v)[:80]
    if unread(st):
        return None, 'looks through the list in a way not followed'
    if v[0] in ('push', 'inserted', 'erased') or writes:
        return False, 'changes the list without knowing where the key is (%s)' % fmt(v)[:80]
    return None, 'leaves the list as %s' % fmt(v)[:80]


def setter(P, st, v, raw, L, f, args):
    t = P.ty(f['ps'][1]['t'])
    want = ('clone', VAL, C(15)) if t['k'] == 'ref' else VAL
    r = set_effect(P, st, st.facts, L, KEY, want, L)
    if r is not None:
        return r
    if raw is not None and raw[0] == 'L' and raw[1] != at(want):
        return False, 'answers %s instead of the element set' % fmt(raw[1])[:60]
    return None


def erased_at(v):
    """erased(base, it) -> base, index (single position)"""
    if v[0] == 'erased' and len(v) >= 3:
        a = v[2] if isinstance(v[2], tuple) and v[2] and v[2][0] == 'it' else (v[2][0] if v[2] and isinstance(v[2][0], tuple) else None)
        rest = v[2][1:] if a is not v[2] else v[3:]
        return v[1], a, rest
    return None


def erase(P, st, v, raw, L, f, args):
    e = read(st, L)
    if args and args[0][0] == 'it':
        return removed_one(st, L, e, args[0][2], L)
    return remove_key(st, L, e)


def removed_one(st, L, e, ix, base):
    x = split_erased(e)
    if x is None:
        if e[0] == 'rec' and e[1] == L:
            return False, 'leaves the entry in the list without its value'
        return (False, 'leaves the list as it was') if e == L else (None, 'leaves %s' % fmt(e)[:80])
    b, first, last = x
    while isinstance(b, tuple) and b and b[0] in ('upd', 'with', 'mod'):
        b = b[1]
    if first is None or first[0] != 'it':
        return None, 'erases from %s' % (first and fmt(first)[:60])
    if last is None:
        if first[2] == ix:
            return None
        return False, 'erases position %s instead' % fmt(first[2])[:60]
    if first[2] == ix and last[0] == 'it':
        from absint import mk_add
        if last[2] == mk_add(ix, C(1)):
            return None
        return False, 'erases from the position up to %s' % fmt(last[2])[:60]
    return None, 'erases %s' % fmt(e)[:80]


def split_erased(e):
    if e[0] != 'erased':
        return None
    its = []

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == 'it':
                its.append(x)
                return
            for y in x:
                walk(y)
    for y in e[2:]:
        walk(y)
    return e[1], its[0] if its else None, its[1] if len(its) > 1 else None


def remove_key(st, L, e):
    if e == L:
        if no_entry(st.facts, L, KEY):
            return None
        return False, 'leaves the list as it was without having found every key different'
    x = split_erased(e)
    if x is None:
        if e == EMPTY and no_entry(st.facts, L, KEY):
            return None
        if e == EMPTY:
            return False, 'empties the list'
        return None, 'leaves %s' % fmt(e)[:80]
    b, first, last = x
    if first is None:
        return None, 'erases %s' % fmt(e)[:80]
    if first[2][0] == 'removed':
        info = loop_of(st.ev, first[2][1][1])
        if info is None:
            return None, 'erases what a loop selected'
        if last is None:
            return False, 'erases one entry of those selected'
        if last[2] not in (size_of(L), ('size', L)):
            return False, 'erases up to %s' % fmt(last[2])[:60]
        if info['range'] is None or info['range'][1:] != (L, C(0), size_of(L)):
            return False, 'looks only at part of the list'
        for kind, facts, ev, val in info['paths']:
            gone = any(x[0] == 'removed' for x in ev)
            hit = facts.get(mk_eq(KEY, key_at(L, info['ix'])))
            if gone and hit is not True:
                return (False, 'removes an entry whose key was not found equal') if hit is False or \
                    not any(mentions(a, info['ix']) and a[0] != 'lt' for a in facts) else \
                    (False, 'removes an entry whose key was not found equal')
            if not gone and hit is not False:
                return False, 'keeps an entry whose key was not found different'
        return None
    ix = first[2]
    if last is None and has_entry(st.facts, L, ix, KEY):
        return None
    if last is None:
        return False, 'erases an entry whose key was not found equal'
    if first[0] == 'it' and last[0] == 'it' and b == L and (ix == last[2] or decide(st, mk_eq(ix, last[2])) is True):
        return None if no_entry(st.facts, L, KEY) else (False, 'leaves the list without having found every key different')
    if has_entry(st.facts, L, ix, KEY) and last[0] == 'it' and last[2] == size_of(L):
        return False, 'erases everything after the entry as well'
    return None, 'erases %s' % fmt(e)[:80]


def claim(P, st, v, raw, L, f, args):
    e = read(st, L)
    if args and args[0][0] == 'it':
        want = ('fld', ('elem', L, args[0][2]), 'second')
        if v != want:
            return (False if v is not None and not unknown(v) else None), 'hands over %s' % (v and fmt(v)[:60])
        return removed_one(st, L, e, args[0][2], L)
    ix = entry_ix(st.facts, L, KEY)
    if ix is None:
        if not no_entry(st.facts, L, KEY):
            return False, 'answers without having found the key or found every key different'
        if v != NULL:
            return (False if v is not None and not unknown(v) else None), 'hands over %s for an absent key' % (v and fmt(v)[:60])
        return None if e == L else (False, 'changes the list for an absent key')
    want = ('fld', ('elem', L, ix), 'second')
    if v != want:
        return (False if v is not None and not unknown(v) else None), 'hands over %s instead of the entry' % (v and fmt(v)[:60])
    return removed_one(st, L, e, ix, L)


def clear(P, st, v, raw, L, f, args):
    e = read(st, L)
    return None if e == EMPTY else ((False if not unknown(e) else None), 'leaves %s' % fmt(e)[:60])


def size(P, st, v, raw, L, f, args):
    n = size_of(L)
    return None if v == n or v is not None and decide(st, mk_eq(v, n)) is True else \
        ((None if v is None or unknown(v) else False), 'answers %s' % (v and fmt(v)[:60]))


def empty(P, st, v, raw, L, f, args):
    d = decide(st, ('T', size_of(L)))
    if v is None:
        return None, 'answers nothing the analysis follows'
    b = decide(st, v)
    if b is not None and d is not None:
        return None if b != d else (False, 'answers %s for a list that is %sempty' % (b, '' if not d else 'not '))
    return None, 'answers %s' % fmt(v)[:60]


def begin(P, st, v, raw, L, f, args):
    return None if v == ('it', L, C(0)) else ((None if v is None or unknown(v) else False), 'answers %s' % (v and fmt(v)[:60]))


def end(P, st, v, raw, L, f, args):
    return None if v == ('it', L, size_of(L)) else ((None if v is None or unknown(v) else False), 'answers %s' % (v and fmt(v)[:60]))


def clone(P, st, v, raw, L, f, args):
    """each entry of the other list is set here"""
    src = ('fld', args[0], L[2])
    loops = [e[1] for e in st.ev if e[0] == 'loop']
    touched = [e for e in st.ev if e[0] in ('push', 'erase', 'clear', 'insert', 'store') and len(e) > 1 and mentions(e[1], L)]
    for e in touched:
        return False, 'changes the list besides taking over the other one'
    if len(loops) != 1:
        return (False, 'takes nothing over') if not loops else (None, 'takes over in several loops')
    info = loops[0]
    if info['range'] is None:
        return None, 'a loop whose range is not understood'
    if info['range'][1] != src or info['range'][2] != C(0) or info['range'][3] != size_of(src):
        return False, 'takes over only part of the other list'
    el = ('elem', src, info['ix'])
    key = ('fld', el, 'first')
    want = ('clone', at(('fld', el, 'second')), C(15))
    for kind, facts, ev, val in info['paths']:
        cur = ('hv', info['ix'][1], L, None)
        sets = [e for e in ev if e[0] in ('push', 'store', 'erase', 'insert') and mentions(e[1], L)]
        if kind not in ('norm', 'cont') or len(sets) != 1:
            return False, 'changes the list %d times for one entry of the other' % len(sets)
        e = sets[0]
        cands = [a[2] for a in facts if a[0] == 'forall'] + list(facts)
        if e[0] == 'push':
            k, x = pair_parts(e[2])
            if k != key or x != want:
                return False, 'adds %s' % fmt(e[2])[:80]
            if not any(no_entry(facts, c, key) for c in list_values(facts, L)):
                return False, 'adds an entry without having found every key different'
        elif e[0] == 'store':
            if e[1][0] != 'fld' or e[1][2] != 'second' or e[1][1][0] != 'elem' or e[2] != want:
                return False, 'stores %s' % fmt(e[2])[:80]
            ix = e[1][1][2]
            if not any(has_entry(facts, c, ix, key) for c in list_values(facts, L)):
                return False, 'replaces an entry whose key was not found equal'
        else:
            return False, 'removes entries'
    return None


def list_values(facts, L):
    """terms the path uses for the content of the list"""
    out = {L}

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'elem' and (x[1] == L or x[1][0] == 'hv' and len(x[1]) > 2 and x[1][2] == L):
                out.add(x[1])
            for y in x:
                walk(y)
    for a in facts:
        walk(a)
    return out


def append(R, P, fname):
    K = 'append of a value to a list annotation'
    IE = ('obj', 'ie')
    L = ('fld', IE, fname)
    for f in sorted(P.named('refract::AppendInfoElement'), key=lambda f: f['f']):
        if f.get('body') is None or len(f['ps']) != 3:
            continue
        R.seen(f)
        I = Interp(P, hooks=refr.hooks(), max_states=1200)
        try:
            outs = I.run(f, None, [IE, KEY, VAL])
        except Budget:
            R.undecided(loc(f), 'too many paths')
            continue
        vk, dk = [t for t in f.get('ta', ())][:2] or (None, None)
        dkind = refr.kind_of('refract::Element<%s>' % dk) if dk else None
        ok = True
        n = 0
        for o in outs:
            if o.kind != 'ret' or not feasible(o.st.facts, L, KEY):
                continue
            res = appended(P, o.st, L, dkind, refr.kind_of(vk) if vk else None)
            if res == 'skip':
                continue
            n += 1
            if res is None:
                continue
            if res[0] is False:
                ok = False
                R.violate(loc(f), 'append-adds-once', res[1], 'append|' + res[1].split(' (')[0])
            else:
                ok = None if ok else ok
                R.undecided(loc(f), 'append: ' + res[1])
        R.ob(K, '%s %s (%d paths)' % (loc(f), f['q'][:80], n), ok is True)
    R.floor(K, 1)


def is_value(st, p, dkind):
    """the pointer value is (a full copy of) a new element of the appended value"""
    if p[0] == 'clone' and p[2] == C(15):
        l = p[1]
    elif p[0] == 'new':
        l = p[1]
    else:
        return False if p[0] in ('obj', 'fld') else None
    if l[0] == 'at' and l[1][0] == 'new':
        l = l[1][1]
    if l[0] != 'heap':
        return None
    if refr.kind_of(l[3]) not in (None, dkind):
        return False
    d = read(st, ('fld', l, 'data_'))
    if decide(st, read(st, ('fld', l, 'hasValue_'))) is not True:
        return False
    if d == VAL:
        return True
    parts = [x for k, x in st.store.items() if k[0] == 'fld' and k[1] == ('fld', l, 'data_')]
    if parts and all(mentions(x, VAL) for x in parts):
        return True
    if mentions(d, VAL):
        return True
    return None if unknown(d) else False


def appended(P, st, L, dkind, vkind):
    facts = st.facts
    ix = entry_ix(facts, L, KEY)
    v = read(st, L)
    if ix is None:
        if not no_entry(facts, L, KEY):
            return False, 'acts without having found the key or found every key different'
        if v[0] != 'push' or v[1] != L:
            return (False, 'an absent annotation is not added') if v == L else (None, 'leaves %s' % fmt(v)[:60])
        k, x = pair_parts(v[2])
        if k != KEY:
            return False, 'adds the annotation under %s' % fmt(k)[:60]
        if x[0] != 'new':
            return None, 'adds %s' % fmt(x)[:60]
        if refr.kind_of(x[1][3]) not in (None, vkind):
            return False, 'adds an annotation of another kind'
        els = read(st, ('fld', ('fld', x[1], 'data_'), 'elements_'))
        d = describe(st, els)
        return only_value(st, d, dkind, [])
    el = ('fld', ('elem', L, ix), 'second')
    # the annotation is a list (asserted by the function); anything else is outside the rule
    if decide(st, ('T', el)) is not True:
        return 'skip'
    kd = decide(st, mk_eq(refr.elkind(el), refr.kc(vkind))) if vkind else True
    if kd is False or any(mentions(a, at(NULL)) for a in facts):
        return 'skip'
    if v[0] in ('push', 'erased') or v == EMPTY:
        return False, 'changes the set of annotations although the key is there'
    arr = at(el)
    E = ('fld', ('fld', arr, 'data_'), 'elements_')
    now = read(st, E)
    was = decide(st, ('T', ('fld', arr, 'hasValue_')))
    if was is None and now != E and decide(st, read(st, ('fld', arr, 'hasValue_'))) is None:
        return False, 'the value is stored in an annotation that may not have one'
    if was is False:
        if decide(st, read(st, ('fld', arr, 'hasValue_'))) is not True:
            return False, 'the value is not stored in an annotation that had none'
        return only_value(st, describe(st, now), dkind, [])
    if now == E:
        # must have found it: some element equal to the value
        for a, b in facts.items():
            if b is True and a[0] == 'eq' and mentions(a, VAL) and mentions(a, E):
                return None
        return False, 'the value is not added although none was found equal'
    d = describe(st, now)
    r = only_value(st, d, dkind, [('old', E)])
    if r is not None:
        return r
    # every element was looked at and found different
    loops = [e[1] for e in st.ev if e[0] == 'loop' and e[1]['range'] is not None and e[1]['range'][1] == E]
    for info in loops:
        if info['range'][2] != C(0) or info['range'][3] != size_of(E):
            continue
        good = True
        for kind, fs, ev, val in info['paths']:
            if kind not in ('norm', 'cont'):
                continue
            p = ('elem', E, info['ix'])
            from seqv import FactsOnly
            F = FactsOnly(fs)
            if decide(F, ('T', p)) is False or decide(F, mk_eq(refr.elkind(p), refr.kc(dkind))) is False:
                continue
            if any(b is False and a[0] == 'eq' and mentions(a, VAL) and mentions(a, at(p)) for a, b in fs.items()):
                continue
            good = False
        if good:
            return None
    return False, 'the value is added without having found every present one different'


def only_value(st, d, dkind, before):
    if d is None:
        return None, 'the list is not understood'
    if d[:len(before)] != before:
        return False, 'the list loses what it held'
    rest = d[len(before):]
    if len(rest) == 1 and rest[0][0] == 'map':
        # a copy of a freshly built list: look at what was copied
        info, paths = rest[0][1], rest[0][2]
        src = read(info['prestore'], info['range'][1]) if info['range'] else None
        if src is not None and len(paths) == 1 and len(paths[0][2]) == 1 and paths[0][2][0] == \
                ('clone', at(('elem', src, info['ix'])), C(15)):
            d2 = describe(st, src)
            return only_value(st, d2, dkind, [])
        return None, 'the list is built by a loop'
    if len(rest) != 1 or rest[0][0] != 'one':
        return False, 'the list gains %d elements instead of the value' % len(rest)
    r = is_value(st, rest[0][1], dkind)
    if r is True:
        return None
    if r is False:
        return False, 'the list gains something other than the value'
    return None, 'the list gains %s' % fmt(rest[0][1])[:60]

"""E09: merging the parts of an extended type: later parts win, nothing is lost, kinds do not mix."""
import refr
from absint import Interp, Budget, C, NULL, TRUE, FALSE, at, read, write, fmt, decide, mk_eq, mk_lt, mk_not, mentions, assume, size_of
from front import loc
from refr import kc

RULE = 'later-part-wins'
EXT = 'refract::dsd::Extend'
IE = 'refract::IElement'
KINDS = ('String', 'Number', 'Boolean', 'Ref', 'Array', 'Enum', 'Object')
RESERVED = ('id', 'prefix', 'namespace')
SET = 'refract::InfoElements::set'
FIND = 'refract::InfoElements::find'
QUIET = {'downcast', 'dtor', 'finit', 'copyctor', 'moved', 'movector', 'own', 'deref', 'live', 'new', 'ctor'}


def check(R, P):
    R.rule('Extend::merge is followed on all paths: of its parts in order, the first is copied whole and every further '
           'one must be merged into that copy by the merge of their common kind; parts of another kind, or of a kind '
           'that has no merge, must raise.')
    R.rule('The merge of each kind is followed: every meta entry of the later part except id, prefix and namespace and '
           'every attribute must be set by copy on the target; a later part with content replaces the value, appends '
           'its children in order (array), or replaces the member of the same key in place and appends the others '
           '(object); enumerations are united, the later of two equal ones kept; a part without content changes no '
           'content.')
    ms = merges(P)
    step(R, P, ms)
    for k in KINDS:
        fs = [f for f in ms if target_kind(P, f) == k]
        if len(fs) != 1:
            R.undecided('', 'the merge of %s: %d functions' % (k, len(fs)))
            continue
        element(R, P, fs[0], k)
    R.floor('parts merged in order', 1)
    R.floor('merge of a kind', 7)


def types(P, f):
    return [P.ty(p['t'])['s'] for p in f['ps']]


def merges(P):
    """the functions that merge one element into another: (IElement&, const IElement&) next to Extend::merge"""
    m = [f for f in P.named(EXT + '::merge') if f.get('body') is not None]
    if not m:
        return []
    return [f for f in P.fns.values() if f.get('body') is not None and f['file'] == m[0]['file'] and
            types(P, f) == [IE + ' &', 'const ' + IE + ' &']]


def target_kind(P, f):
    """the kind a merge is for, by the template it is an instance of"""
    q = f['q']
    i = q.find('refract::Element<refract::dsd::')
    return refr.kind_of(q[i:q.index('>', i) + 1]) if i >= 0 else None


def walk(ev):
    for e in ev:
        yield e
        if e[0] == 'loop':
            for p in e[1]['paths']:
                yield from walk(p[2])


# ---- the parts one after the other

def step(R, P, ms):
    f = next((f for f in P.named(EXT + '::merge') if f.get('body') is not None), None)
    if f is None:
        R.lose('function ' + EXT + '::merge')
        return
    R.seen(f)
    H = refr.hooks(dispatch=True)
    inner = H['call']
    ids = {g['f']: g for g in ms}

    def call(I, e, b, s, fr, ob, args):
        g = ids.get(e['f'])
        if g is not None:
            a = [I.as_loc(s, x) for x in args]
            s.emit('merge', target_kind(P, g), a[0], a[1], e.get('l'))
            return [(s, ('V', ('void',)))]
        return inner(I, e, b, s, fr, ob, args)
    H['call'] = call
    I = Interp(P, hooks=H, max_states=3000)
    this = ('obj', 'this')
    try:
        outs = I.run(f, this)
    except Budget:
        R.undecided(loc(f), 'too many paths')
        return
    els = [x['n'] for x in P.recs[EXT]['fields'] if not x.get('static')]
    L = ('fld', this, els[0]) if len(els) == 1 else None
    if not ms:
        R.undecided(loc(f), 'no merge functions of two elements next to Extend::merge')
        return
    ok = True

    def bad(text):
        nonlocal ok
        ok = False
        R.violate(loc(f), RULE, 'Extend::merge: ' + text, 'merge|' + text[:80])

    def unk(text):
        nonlocal ok
        ok = None if ok else ok
        R.undecided(loc(f), 'Extend::merge: ' + text)
    rets = [o for o in outs if o.kind == 'ret']
    if not rets:
        unk('never returns')
    for o in rets:
        loops = [e[1] for e in o.st.ev if e[0] == 'loop' and e[1]['range'] is not None and
                 (e[1]['range'][1] == L or any(x[0] == 'merge' for p in e[1]['paths'] for x in walk(p[2])))]
        if len(loops) != 1:
            if o.val is not None and I.val(o.st, o.val) == NULL and decide(o.st, mk_eq(size_of(read(o.st, L)), C(0))):
                continue
            unk('%d loops over the parts' % len(loops))
            continue
        i = loops[0]
        if i['range'][1] != L:
            unk('loop over ' + fmt(i['range'][1]))
            continue
        if i['range'][2] != C(0) or i['range'][3] != size_of(read(i['prestore'], L)):
            bad('takes the parts %s to %s only' % (fmt(i['range'][2]), fmt(i['range'][3])))
            continue
        v = I.val(o.st, o.val)
        # where the result is kept through the rounds
        res = v[2] if v is not None and v[0] == 'hv' and len(v) > 2 else None
        if v == NULL and i['range'][3] == size_of(read(i['prestore'], L)) and decide(o.st, mk_eq(i['range'][3], C(0))) is not True:
            bad('answers nothing after the pass over the parts')
            continue
        if res is None:
            unk('answers %s' % (fmt(v)[:60] if v is not None else 'nothing'))
            continue
        e = ('elem', L, i['ix'])
        start = read(i['prestore'], res)
        if start != NULL:
            (bad if start is not None and start[0] in ('c', 'clone') else unk)('starts from ' + fmt(start)[:60])
        ends = {id(fa): s for fa, s in (i.get('ends') or [])}
        taken = {refr.flag_isa(St_of(i, p[1]).facts, at(at_read(e))) for p in i['paths'] if any(x[0] == 'merge' for x in walk(p[2]))}
        if None not in taken and taken < set(KINDS):
            asked = {refr.flag_isa(St_of(i, p[1]).facts, at(at_read(e))) for p in i['paths'] if p[0] == 'throw'}
            for k in sorted(set(KINDS) - taken):
                (bad if k in asked else unk)('a %s part is never merged' % k)
        for kind, fa, ev, val in i['paths']:
            S = St_of(i, fa)
            m = [x for x in walk(ev) if x[0] == 'merge']
            pv = None
            here = hv_in(fa, res)
            before = ('hv', i['ix'][1], res, None) if here is None else here
            there = decide(S, ('T', at_read(e)))
            had = decide(S, ('T', before))
            end = ends.get(id(fa))
            after = read(end, res) if end is not None else None
            isnull = mk_eq(before, NULL)
            if decide(S, isnull) is True:
                had = False
            if kind == 'brk' or kind == 'ret':
                bad('leaves the parts that follow out')
                continue
            if there is False:
                if m or kind == 'throw' or (after is not None and after != before):
                    bad('does something for a part that is not there')
                continue
            if had is False:
                if m:
                    bad('merges into nothing')
                elif kind == 'throw':
                    bad('raises for the first part')
                elif after != ('clone', at(at_read(e)), C(15)):
                    (bad if after is not None and (after == before or after[0] in ('clone', 'addr', 'c')) else unk)(
                        'the first part is not copied whole: %s' % (fmt(after)[:70] if after is not None else '?'))
                continue
            if had is None:
                unk('a round that does not ask whether there is a first part')
                continue
            k = refr.flag_isa(S.facts, at(at_read(e)))
            same = same_kind(S, k, i, res, before)
            if kind == 'throw':
                if m:
                    bad('merges and raises')
                elif k in KINDS and same is True:
                    bad('raises for a %s part on a %s' % (k, k))
                elif k is None:
                    unk('raises for a part whose kind was not asked')
                continue
            if same is False:
                if after is None or after == before and not m:
                    bad('passes over a part of another kind')
                else:
                    bad('merges a part of another kind')
                continue
            if k is None:
                unk('merges without knowing the kind')
                continue
            if k not in KINDS:
                bad('takes a %s part' % k)
                continue
            if len(m) != 1:
                bad('a %s part is merged %d times' % (k, len(m)))
                continue
            if m[0][1] != k:
                bad('a %s part is merged as %s' % (k, m[0][1]))
            if m[0][3] != at(at_read(e)):
                bad('merges %s instead of the part' % fmt(m[0][3])[:60])
            if m[0][2] != at(before):
                bad('merges into %s' % fmt(m[0][2])[:60])
            if after is not None and after != before:
                unk('replaces the result by %s' % fmt(after)[:60])
            if same is None:
                unk('the kinds of %s parts are not compared' % k)
    R.ob('parts merged in order', '%s Extend::merge' % loc(f), ok is True)


def at_read(e):
    return e


class St_of:
    """facts of one path of a loop with the store before it"""
    def __new__(cls, info, facts):
        s = info['prestore'].copy()
        s.facts = dict(facts)
        return s


def hv_in(fa, l):
    for a in fa:
        r = find_hv(a, l)
        if r is not None:
            return r
    return None


def find_hv(t, l):
    if isinstance(t, tuple):
        if len(t) > 2 and t[0] == 'hv' and t[2] == l:
            return t
        for x in t:
            r = find_hv(x, l)
            if r is not None:
                return r
    return None


def same_kind(S, k, info, res, before):
    """whether the facts of a round make the part's kind that of what was merged so far: some state remembered from the
    first part (its kind, or what the type query says of it) is compared with the part's"""
    if k is None:
        return None
    dk = refr.flag_isa(S.facts, at(before))
    if dk is not None:
        return dk == k
    out = None
    firsts = {}
    for fa, s in info.get('ends') or []:
        for l in info['changed']:
            v = read(s, l)
            if v is not None and v[0] in ('c', 's') and l != res:
                fk = None
                for a, y in fa.items():
                    if y and a[0] == 'eq':
                        for x, z in ((a[1], a[2]), (a[2], a[1])):
                            if x[0] == 'kind' and z[0] == 's' and x[1][0] == 'at' and x[1][1][0] == 'clone':
                                fk = z[1][5:]
                if fk:
                    firsts.setdefault(l, {}).setdefault(v, set()).add(fk)
    for l, m in firsts.items():
        h = hv_in(S.facts, l)
        if h is None:
            continue
        for v, ks in m.items():
            d = decide(S, mk_eq(h, v))
            if d is True:
                return (ks == {k}) if len(ks) == 1 else None
            if d is False and k in ks:
                out = False
    return out


# ---- the merge of one kind

def element(R, P, f, k):
    R.seen(f)
    I = Interp(P, hooks=edit_hooks(P), max_states=3000, noinline=(SET, FIND))
    T, A = ('obj', 'target'), ('obj', 'append')
    try:
        outs = I.run(f, None if f.get('static') else ('obj', 'this'), [T, A])
    except Budget:
        R.undecided(loc(f), 'merge of %s: too many paths' % k)
        return
    good = True
    said = set()

    def say(ok, text):
        nonlocal good
        if (ok, text) in said:
            return
        said.add((ok, text))
        if ok is False:
            good = False
            R.violate(loc(f), RULE, 'merge of %s: %s' % (k, text), 'merge %s|%s' % (k, text[:80]))
        else:
            good = None if good else good
            R.undecided(loc(f), 'merge of %s: %s' % (k, text))
    n = 0
    for o in outs:
        if o.kind == 'throw':
            say(None, 'raises')
            continue
        if nullref(o.st.facts):
            continue
        n += 1
        notes(say, o.st, T, A, 'meta_', RESERVED, k)
        notes(say, o.st, T, A, 'attributes_', ('enumerations',) if k == 'Enum' else (), k)
        if k == 'Enum':
            enumerations(say, P, o, T, A)
        content(say, P, I, o, T, A, k)
    if not n:
        say(None, 'no path')
    R.ob('merge of a kind', '%s %s (%d paths)' % (loc(f), k, n), good is True)


def edit_hooks(P):
    """the object's own edits are taken as what they are for (E05 decides that they are)"""
    H = refr.hooks(dispatch=True)
    inner = H['call']
    cls = 'refract::dsd::Object'
    fl = [x['n'] for x in P.recs.get(cls, {}).get('fields', ()) if not x.get('static')]

    def call(I, e, b, s, fr, ob, args):
        f = P.fns.get(e['f'])
        if f is not None and f.get('cls') == cls and ob is not None and len(fl) == 1 and f['n'] in ('push_back', 'insert', 'erase'):
            L = ('fld', ob, fl[0])
            vals = [I.val(s, a) for a in args]
            if f['n'] == 'push_back' and len(vals) == 1:
                s.emit('push', L, vals[0], e.get('l'))
                r = ('void',)
            elif f['n'] == 'insert' and len(vals) == 2 and vals[0] is not None and vals[0][0] == 'it':
                s.emit('insert', L, vals[0], vals[1], e.get('l'))
                r = vals[0]
            elif f['n'] == 'erase' and vals and vals[0] is not None and vals[0][0] == 'it':
                s.emit('erase', L, *vals, e.get('l'))
                r = vals[0]
            else:
                return inner(I, e, b, s, fr, ob, args)
            I.nu += 1
            write(s, L, ('hv', I.nu, L, None))
            return [(s, ('V', r))]
        return inner(I, e, b, s, fr, ob, args)
    H['call'] = call
    return H


def nullref(facts):
    """a path with a member whose key is not there or not a string: such members are outside of the property"""
    for a, v in facts.items():
        if null_in(a):
            return True
        if v is False and a[0] == 'T' and keyptr(a[1]):
            return True
        if v is False and a[0] == 'eq' and kc('String') in a[1:] and any(
                x[0] == 'kind' and x[1][0] == 'at' and keyptr(x[1][1]) for x in a[1:]):
            return True
    return False


def keyptr(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'fld' and t[2] == 'key_'


def null_in(t):
    return isinstance(t, tuple) and (t == ('at', NULL) or any(null_in(x) for x in t))


def under(l, root):
    """location inside another"""
    while isinstance(l, tuple) and l:
        if l == root:
            return True
        if l[0] not in ('fld', 'elem', 'vf'):
            return False
        l = l[1]
    return False


def sets(ev, lst):
    """[(key, value)] put into an annotation list by the events, loops not entered"""
    out = []
    for e in ev:
        if e[0] == 'call' and e[1] == SET and e[2] == ('addr', lst):
            a = e[3]
            out.append((a[0] if a else None, a[1] if len(a) > 1 else None))
    return out


def notes(say, st, T, A, fl, skip, k):
    """every entry of the appended list but the skipped keys is set by copy on the target"""
    src = ('fld', ('fld', A, fl), 'elements')
    dst = ('fld', T, fl)
    name = fl.rstrip('_')
    loops = [e[1] for e in st.ev if e[0] == 'loop' and e[1]['range'] is not None and e[1]['range'][1] == src]
    hits = [i for i in loops if any(sets(p[2], dst) for p in i['paths'])]
    if not loops:
        if decide(st, mk_eq(size_of(read(st, src)), C(0))) is True:
            return
        say(None if other_touch(st, T) else False, '%s of the later part are not taken over' % name)
        return
    if not hits:
        if decide(st, mk_eq(size_of(read(st, src)), C(0))) is True:
            return
        say(False if len(loops) == 1 and loops[0]['paths'] else None, '%s of the later part are not taken over' % name)
        return
    if len(hits) > 1:
        say(None, 'several passes over %s' % name)
        return
    i = hits[0]
    if i['range'][2] != C(0) or i['range'][3] != size_of(read(i['prestore'], src)):
        say(False, 'only entries %s to %s of %s are taken over' % (fmt(i['range'][2]), fmt(i['range'][3])[:40], name))
    e = ('elem', src, i['ix'])
    key, val = ('fld', e, 'first'), ('fld', e, 'second')
    for kind, fa, ev, v in i['paths']:
        S = St_of(i, fa)
        s = sets(ev, dst)
        if kind in ('brk', 'ret'):
            say(False, 'leaves %s that follow out' % name)
            continue
        if kind == 'throw':
            say(None, 'raises over %s' % name)
            continue
        skipped = any(decide(S, mk_eq(key, ('s', x))) is True for x in skip)
        known = all(decide(S, mk_eq(key, ('s', x))) is False for x in skip)
        if skipped:
            if s:
                say(False, 'takes over a reserved entry of %s' % name)
            continue
        if not s:
            if decide(S, ('T', val)) is False:
                continue
            say(False, 'an entry of %s is left out%s' % (name, when(fa, i)))
            continue
        if not known:
            say(False, 'takes over an entry of %s without regard to its name' % name)
        if len(s) > 1:
            say(None, 'sets %d entries of %s' % (len(s), name))
            continue
        if s[0][0] != key:
            say(False, 'sets %s under %s' % (name, fmt(s[0][0])[:50]))
        if s[0][1] != ('clone', at(val), C(15)):
            say(False if s[0][1] is not None and s[0][1][0] in ('clone', 'c') else None,
                'sets %s of %s' % (fmt(s[0][1])[:60] if s[0][1] is not None else '?', name))


def when(fa, i):
    c = [('' if v else 'not ') + fmt(a)[:60] for a, v in fa.items()
         if i['prefacts'].get(a) != v and a[0] not in ('live', 'forall', 'lt')]
    return ' when ' + ' and '.join(c) if c else ''


def other_touch(st, T):
    return any(e[0] == 'call' and isinstance(e[2], tuple) and e[2][0] == 'addr' and under(e[2][1], T) and e[1] not in (SET, FIND)
               for e in st.ev)


def mkey(e, P):
    """the key text of the member behind an element location"""
    return ('fld', ('fld', ('at', ('fld', ('fld', e, 'data_'), 'key_')), 'data_'), 'value_')


def content(say, P, I, o, T, A, k):
    st = o.st
    D, S = ('fld', T, 'data_'), ('fld', A, 'data_')
    had = decide(st, ('T', ('fld', A, 'hasValue_')))
    if had is None:
        say(None, 'does not ask whether the later part has content')
        return
    tv = read(st, ('fld', T, 'hasValue_'))
    touched = [e for e in walk(st.ev) if e[0] not in QUIET and e[0] != 'loop' and e[0] != 'call' and len(e) > 1 and
               isinstance(e[1], tuple) and (under(e[1], D) or e[1] == ('fld', T, 'hasValue_'))]
    if had is False:
        if touched:
            say(False, 'a part without content changes the content')
        return
    if not (tv == TRUE or tv == C(1) or decide(st, ('T', tv)) is True or
            (tv[0] == 'hv' and k == 'Object')):
        src = ('fld', S, next((x['n'] for x in P.recs['refract::dsd::' + k]['fields'] if not x.get('static')), ''))
        if k == 'Object' and decide(st, mk_eq(size_of(read(st, src)), C(0))) is True:
            return
        say(False if tv in (FALSE, C(0), ('fld', T, 'hasValue_')) or not touched else None, 'leaves the target without content (%s)' % fmt(tv)[:40])
        return
    if k in ('Array', 'Object'):
        children(say, P, st, T, A, k, touched)
        return
    v = read(st, D)
    fl = [x['n'] for x in P.recs['refract::dsd::' + k]['fields'] if not x.get('static')]
    if v == S:
        return
    for x in fl:
        a = flatten(read(st, ('fld', D, x)))
        if a is None or a == ('fld', S, x) or a == ('clone', at(('fld', S, x)), C(15)):
            if a is None:
                say(None, 'value of ' + x)
            continue
        if decide(st, ('T', ('fld', S, x))) is False and a == NULL:
            continue
        say(False if a == ('fld', D, x) or a[0] in ('c', 's') else None,
            'the value ends as %s' % fmt(a)[:60])


def flatten(v):
    """a copy of a copy is a copy"""
    while v is not None and v[0] == 'clone' and v[1][0] == 'at' and isinstance(v[1][1], tuple) and v[1][1][0] == 'clone' and \
            v[2] == v[1][1][2] == C(15):
        v = v[1][1]
    return v


def children(say, P, st, T, A, k, touched):
    fl = [x['n'] for x in P.recs['refract::dsd::' + k]['fields'] if not x.get('static')]
    L = ('fld', ('fld', T, 'data_'), fl[0])
    src = ('fld', ('fld', A, 'data_'), fl[0])
    D = ('fld', T, 'data_')
    own = (L, D)

    def edits(ev):
        return [e for e in ev if e[0] in ('push', 'erase', 'insert', 'swap', 'assign', 'clear', 'store', 'resize', 'pop', 'call')
                and len(e) > 1 and (e[1] in own or (e[0] == 'call' and e[2] in (('addr', L), ('addr', D)) and not e[1].endswith(
                    ('::empty', '::size', '::begin', '::end', '::get'))))]
    loops = [e[1] for e in st.ev if e[0] == 'loop' and e[1]['range'] is not None and e[1]['range'][1] == src]
    outside = edits(st.ev)
    for e in outside:
        if decide_empty(st, T):
            continue
        say(False if e[0] in ('swap', 'clear', 'assign', 'erase') else None, 'changes the children by %s outside of the pass over the later part' % e[0])
    loops = [i for i in loops if any(edits(list(walk(p[2]))) for p in i['paths'])] or loops
    if not loops:
        if decide(st, mk_eq(size_of(read(st, src)), C(0))) is True:
            return
        say(False if not [e for e in touched if e[0] != 'store'] else None, 'children of the later part are not taken over')
        return
    if len(loops) > 1:
        say(None, 'several passes over the children')
        return
    i = loops[0]
    if i['range'][2] != C(0) or i['range'][3] != size_of(read(i['prestore'], src)):
        say(False, 'takes over the children %s to %s only' % (fmt(i['range'][2]), fmt(i['range'][3])[:40]))
    m = ('elem', src, i['ix'])
    for kind, fa, ev, v in i['paths']:
        if kind in ('brk', 'ret'):
            say(False, 'leaves the children that follow out')
            continue
        if kind == 'throw':
            say(None, 'raises over the children')
            continue
        if nullref(fa):
            continue
        S = St_of(i, fa)
        ed = edits(ev)
        hasv = [h for h in (hv_in(fa, ('fld', T, 'hasValue_')),) if h is not None]
        empty = any(decide(S, ('T', h)) is False for h in hasv) or decide(S, ('T', ('fld', T, 'hasValue_'))) is False
        body = []
        for e in ed:
            if e[0] in ('swap', 'assign') and empty and not body:
                continue                    # content set up where there was none
            body.append(e)
        copy = ('clone', at(m), C(15))
        if decide(S, ('T', m)) is False:
            continue
        if k == 'Array':
            if [(e[0], e[2]) for e in body] != [('push', copy)]:
                say(verdict(body), 'a child is not appended by copy: %s%s' % (show(body), when(fa, i)))
            continue
        if not body:
            say(False, 'a child of the later part is left out' + when(fa, i))
            continue
        if [e[0] for e in body] == ['push']:
            if body[0][2] != copy:
                say(verdict(body), 'appends %s' % fmt(body[0][2])[:60])
            r = unmatched(S, fa, ev, m, L)
            if r is not None:
                say(r[0], r[1] + when(fa, i)[:200])
            continue
        pos = position(body, L, copy)
        if pos is None:
            say(verdict(body), 'a child ends up as %s' % show(body) + when(fa, i)[:100])
            continue
        if pos is False:
            say(False, 'the copy does not take the place of what it replaces: %s' % show(body))
            continue
        if not matched(S, fa, m, L, pos):
            say(False, 'replaces a child of another key' + when(fa, i)[:300])


def decide_empty(st, T):
    return decide(st, ('T', ('fld', T, 'hasValue_'))) is False


def verdict(body):
    return False if all(e[0] in ('push', 'erase', 'insert', 'swap', 'clear') for e in body) else None


def show(body):
    return ', '.join('%s %s' % (e[0], ' '.join(fmt(x)[:60] for x in flat(e[2:4]) if isinstance(x, tuple))) for e in body) or 'nothing'


def flat(t):
    for x in t:
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            yield from flat(x)
        else:
            yield x


def args_of(e):
    """arguments of an erase or insert"""
    out = []
    for x in e[2:]:
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            out += list(x)
        elif isinstance(x, tuple):
            out.append(x)
    return out


def position(body, L, copy):
    """the place replaced by the copy; False when two places; None when the edit is of another form"""
    if [e[0] for e in body] not in (['erase', 'insert'], ['insert', 'erase']):
        if [e[0] for e in body] == ['store'] and False:
            return None
        return None
    a, b = (body[0], body[1]) if body[0][0] == 'erase' else (body[1], body[0])
    ea = [x for x in args_of(a) if x[0] == 'it']
    ib = [x for x in args_of(b) if x[0] == 'it']
    if not ea or not ib or copy not in args_of(b):
        return None
    if len(ea) > 1 and ea[1] != ('it', L, ('sum', ea[0][2], C(1))) and fmt(ea[1][2]) != fmt(ea[0][2]) + '+1':
        return False
    if body[0] is b:
        return None
    return ea[0][2] if ib[0][2] == ea[0][2] else False


def there(pos, L):
    """shape test: what a pointer read at this position of the list is"""
    def f(t):
        return isinstance(t, tuple) and len(t) == 3 and t[0] == 'elem' and t[2] == pos and (t[1] == L or mentions(t[1], L) or
                                                                                           (t[1][0] == 'hv'))
    return f


def elements_at(fa, pos, L):
    """element locations the facts speak of that are behind this position of the list"""
    g = there(pos, L)
    out = set()

    def look(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'at' and g(t[1]):
                out.add(t)
            for x in t:
                look(x)
    for a in fa:
        look(a)
    return out


def isa(fa, l):
    return refr.flag_isa(fa, l)


def text_facts(fa):
    for a, v in fa.items():
        if a[0] == 'eq' and v:
            yield a[1], a[2]
            yield a[2], a[1]


def matched(S, fa, m, L, pos):
    """the facts say that the child at pos stands for the same key as m"""
    ml = at(m)
    mk = isa(fa, ml)
    for X in elements_at(fa, pos, L):
        if mk == 'Ref' and isa(fa, X) == 'Ref':
            for a, b in text_facts(fa):
                if under(a, ('fld', ml, 'data_')) and under(b, ('fld', X, 'data_')):
                    return True
        if mk != 'Member':
            continue
        km = mkey(ml, None)
        for a, b in text_facts(fa):
            if a != km:
                continue
            if isa(fa, X) == 'Member' and b == mkey(X, None):
                return True
            if isa(fa, X) == 'Select' and mentions(b, X):
                y = b[1][1][1][1][1] if b[0] == 'fld' else None
                for l, z in kinds_known(fa):
                    if z == 'Member' and b == mkey(l, None) and mentions(l, X):
                        return True
    return False


def kinds_known(fa):
    for a, v in fa.items():
        if a[0] == 'eq' and v:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 'kind' and y[0] == 's':
                    yield x[1], y[1][5:]


def unmatched(S, fa, ev, m, L):
    """None when the facts say no child stands for the key of m, else (verdict, text)"""
    ml = at(m)
    mk = isa(fa, ml)
    if mk is not None and mk not in ('Member', 'Ref'):
        return None
    if mk is None:
        a = [decide(S, mk_eq(('kind', ml), kc(x))) for x in ('Member', 'Ref')]
        if a == [False, False]:
            return None
    searches = [e[1] for e in ev if e[0] == 'loop' and e[1]['range'] is not None and e[1]['range'][1] == L and
                e[1]['range'][2] == C(0) and done(fa, e[1])]
    if not searches:
        part = [e[1] for e in ev if e[0] == 'loop' and e[1]['range'] is not None and e[1]['range'][1] == L and done(fa, e[1])]
        if mk and len(part) == 1 and part[0]['range'][2] == part[0]['range'][3]:
            return False, 'a %s is appended after a look through no child at all' % mk
        full = [a for a in fa if a[0] == 'forall']
        return (False if mk and not full else None), 'a %s is appended without a look for its key' % (mk or 'child')
    why = None
    for i in searches:
        why = search(i, ml, mk, L)
        if why is None:
            return None
    return why


def done(fa, i):
    """the search went through to the end"""
    return any(a[0] == 'forall' and v and a[1] == i['ix'] for a, v in fa.items())


def search(i, ml, mk, L):
    for kind, fa, ev, v in i['paths']:
        if kind not in ('norm', 'cont') or nullref(fa):
            continue
        S = St_of(i, fa)
        xs = elements_at(fa, i['ix'], L)
        if any(a[0] == 'T' and not v2 and there(i['ix'], L)(a[1]) for a, v2 in fa.items()):
            continue
        if not xs:
            return False, 'passes over a child it did not look at'
        X = sorted(xs, key=len)[0]
        if decide(S, ('T', X[1])) is False:
            continue
        kx = isa(fa, X)
        if mk == 'Ref':
            if kx is not None and kx != 'Ref' or decide(S, mk_eq(('kind', X), kc('Ref'))) is False:
                continue
            if kx == 'Ref' and differs(fa, lambda a: under(a, ('fld', ml, 'data_')), lambda b: under(b, ('fld', X, 'data_'))):
                continue
            return (False if kx == 'Ref' else None), 'passes over a reference without comparing it'
        km = mkey(ml, None)
        if kx == 'Member' or (kx is None and decide(S, mk_eq(('kind', X), kc('Member'))) is not False):
            if decide(S, mk_eq(km, mkey(X, None))) is False:
                continue
            return False, 'passes over a member without comparing its key'
        if kx == 'Select' or (kx is None and decide(S, mk_eq(('kind', X), kc('Select'))) is not False):
            ok = False
            for e in ev:
                if e[0] == 'loop' and e[1]['range'] is not None and mentions(e[1]['range'][1], X) and done(fa, e[1]):
                    ok = nested(e[1], km)
                    if ok is True:
                        break
            if ok is not True:
                return ok, 'passes over a selection without looking through its options'
    return None


def nested(i, km):
    """a search through options, or one option's children, that found the key nowhere"""
    if i['range'][2] != C(0):
        return False
    inner = False
    for kind, fa, ev, v in i['paths']:
        if kind not in ('norm', 'cont') or nullref(fa):
            continue
        S = St_of(i, fa)
        child = ('elem', i['range'][1], i['ix'])
        sub = [e[1] for e in ev if e[0] == 'loop' and e[1]['range'] is not None and mentions(e[1]['range'][1], child) and done(fa, e[1])]
        if sub:
            if not any(nested(x, km) is True for x in sub):
                return False
            continue
        y = at(child)
        if decide(S, ('T', child)) is False or decide(S, mk_eq(('kind', y), kc('Member'))) is False:
            continue
        k = isa(fa, y)
        if k is not None and k != 'Member':
            continue
        if decide(S, mk_eq(km, mkey(y, None))) is False:
            continue
        return False
    return True


def differs(fa, p, q):
    for a, v in fa.items():
        if a[0] == 'eq' and not v:
            if p(a[1]) and q(a[2]) or p(a[2]) and q(a[1]):
                return True
    return False


# ---- enumerations

def enumerations(say, P, o, T, A):
    st = o.st
    ta, aa = ('fld', T, 'attributes_'), ('fld', A, 'attributes_')
    finds = {}
    for e in st.ev:
        if e[0] == 'call' and e[1] == FIND and e[2] in (('addr', ta), ('addr', aa)) and e[3][:1] == (('s', 'enumerations'),):
            finds.setdefault(e[2][1], []).append(e[4])
    if aa not in finds:
        # may be known otherwise; nothing this reading can follow
        touched = [x for x in sets(st.ev, ta)]
        say(False if not touched and not finds else None, 'enumerations of the later part are not looked up')
        return
    fa_ = finds[aa][-1]
    end_a = ('it', ('fld', aa, 'elements'), size_of(read(st, ('fld', aa, 'elements'))))
    absent_a = decide(st, mk_eq(fa_, end_a))
    put = [x for x in sets(st.ev, ta) if x[0] == ('s', 'enumerations')]
    arr = None
    for e in walk(st.ev):
        if e[0] == 'loop' and e[1]['range'] is not None and mentions(e[1]['range'][1], fa_):
            arr = e[1]['range'][1]
    loops = [e[1] for e in st.ev if e[0] == 'loop' and e[1]['range'] is not None and mentions(e[1]['range'][1], fa_)]
    if absent_a is True:
        if put or loops:
            say(False, 'enumerations are changed when the later part has none')
        return
    if absent_a is None:
        say(None, 'enumerations of the later part: unknown whether there')
        return
    src = ('at', ('fld', ('at', fa_), 'second'))
    lst = ('fld', ('fld', src, 'data_'), 'elements_')
    if refr.flag_isa(st.facts, src) not in (None, 'Array') or decide(st, mk_eq(('kind', src), kc('Array'))) is False or \
            decide(st, ('T', ('fld', ('at', fa_), 'second'))) is False:
        return                                  # enumerations are a list
    none = decide(st, mk_eq(size_of(read(st, lst)), C(0)))
    if none is None:
        none = decide(st, mk_lt(C(0), size_of(read(st, lst)))) is False or None
    if none is True:
        if put:
            say(None, 'sets an empty list of enumerations')
        return
    ft = finds.get(ta, [None])[-1]
    absent_t = None
    if ft is not None:
        for a, v in st.facts.items():
            if a[0] == 'eq' and ft in (a[1], a[2]) and any(x[0] == 'it' for x in a[1:]):
                absent_t = v
    if not put and not loops and not changes(st.ev, T, ta) and decide(st, ('T', ('fld', src, 'hasValue_'))) is not False:
        say(False, 'enumerations of the later part are left out' + ' when ' + ' and '.join(
            ('' if v else 'not ') + fmt(a)[:90] for a, v in st.facts.items() if mentions(a, lst))[:150])
        return
    if absent_t is True:
        if [x[1] for x in put] != [('clone', src, C(15))]:
            say(False, 'enumerations are not taken over where the target has none: %s' % (fmt(put[0][1])[:60] if put else 'nothing'))
        return
    if absent_t is None:
        say(False if put and ft is None else None, 'enumerations of the target are not looked up')
        return
    if put:
        say(False, 'enumerations of the target are replaced')
        return
    tgt = ('at', ('fld', ('at', ft), 'second'))
    if decide(st, mk_eq(('kind', tgt), kc('Array'))) is False or decide(st, ('T', ('fld', ('at', ft), 'second'))) is False:
        return
    L = ('fld', ('fld', tgt, 'data_'), 'elements_')
    loops = [i for i in loops if i['range'][1] == lst]
    if len(loops) != 1:
        say(False if not loops and none is not True else None, '%d passes over the enumerations of the later part' % len(loops))
        return
    i = loops[0]
    if i['range'][2] != C(0) or i['range'][3] != size_of(read(i['prestore'], lst)):
        say(False, 'only part of the enumerations is taken over')
    m = ('elem', lst, i['ix'])
    D = ('fld', tgt, 'data_')
    for kind, fa, ev, v in i['paths']:
        if kind in ('brk', 'ret'):
            say(False, 'leaves the enumerations that follow out')
            continue
        S = St_of(i, fa)
        ed = [e for e in ev if e[0] in ('push', 'erase', 'insert', 'swap', 'assign', 'clear', 'store') and e[1] in (L, D)]
        copy = ('clone', at(m), C(15))
        push = [e for e in ed if e[0] in ('push', 'insert') and copy in args_of(e)]
        rest = [e for e in ed if e not in push]
        if len(push) != 1:
            say(verdict(ed), 'an enumeration of the later part is not added by copy (%s)' % show(ed))
            continue
        if not rest:
            ss = [e[1] for e in ev if e[0] == 'loop' and e[1]['range'] is not None and e[1]['range'][1] == L and done(fa, e[1])]
            if not ss or any(i2['range'][2] != C(0) for i2 in ss):
                say(False, 'an enumeration is added without a look for an equal one')
            for i2 in ss:
                for k2, f2, e2, v2 in i2['paths']:
                    if k2 in ('norm', 'cont') and not equal(f2, m, L, i2['ix'], False):
                        say(False, 'passes over an enumeration without comparing it')
            continue
        er = [x for x in args_of(rest[0]) if x[0] == 'it'] if len(rest) == 1 and rest[0][0] == 'erase' else []
        if not er:
            say(verdict(rest), 'enumerations are changed by %s' % show(rest))
            continue
        if len(er) > 1 and fmt(er[1][2]) != fmt(er[0][2]) + '+1':
            say(False, 'removes the enumerations from %s to %s' % (fmt(er[0][2]), fmt(er[1][2])[:40]))
        elif not equal(fa, m, L, er[0][2], True):
            say(False, 'removes an enumeration that is not equal to the added one')


def changes(ev, T, ta):
    """something else done to the attributes of the target, after they were taken over"""
    out = False
    for e in ev:
        if e[0] in ('push', 'erase', 'insert', 'swap', 'assign', 'clear', 'store') and isinstance(e[1], tuple) and mentions(e[1], ta):
            out = True
        if e[0] == 'call' and e[2] == ('addr', ta) and e[1] not in (SET, FIND):
            out = True
        if e[0] == 'call' and any(x == ('addr', T) or x == T for x in e[3]):
            out = True
    return out


def equal(fa, m, L, pos, want):
    g = there(pos, L)
    ml = ('elemof', at(m))
    for a, v in fa.items():
        if a[0] == 'eq' and v is want:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x == ml and y[0] == 'elemof' and y[1][0] == 'at' and g(y[1][1]):
                    return True
    return False

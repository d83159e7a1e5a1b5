"""W01: what is rendered of an element is all of it."""
import refr
from absint import C, Interp, Budget, decide, fmt, mk_eq, write
from front import loc, walk, strip_targs
from refr import KINDS
from seqv import describe, FactsOnly, loop_of

RULE = 'rendered whole'
ROOT = 'refract::serialize::renderSo'
SO = 'drafter::utils::so::'
LISTS = ('Array', 'Object', 'Extend', 'Option', 'Select')


class Say:
    def __init__(self, R, f, what):
        self.R, self.f, self.what, self.ok, self.n = R, f, what, True, set()

    def bad(self, text):
        self.ok = False
        if text not in self.n:
            self.n.add(text)
            self.R.violate(loc(self.f), RULE, '%s: %s: %s' % (self.f['q'][:90], self.what, text), '%s|%s|%s' % (self.f['b'], self.what, text[:60]))

    def unk(self, text):
        if self.ok is True:
            self.ok = None
        if text not in self.n:
            self.n.add(text)
            self.R.undecided(loc(self.f), '%s: %s: %s' % (self.f['q'][:90], self.what, text))


def hooks():
    H = refr.hooks(dispatch=True)
    inner = H['call']

    def call(I, e, b, s, fr, ob, args):
        if b == 'std::variant::operator=' and ob is not None and len(args) == 1:
            v = I.val(s, args[0])
            if not (v[0] == 'ctor' and 'variant' in v[1]):
                v = ('ctor', 'std::variant::(ctor)', v)
            write(s, ob, v)
            return [(s, ('L', ob))]
        return inner(I, e, b, s, fr, ob, args)
    return dict(H, call=call, typed=lambda q: q.startswith(SO))


def none_in(st, n):
    """the path knows that the size n is zero"""
    return decide(st, ('T', n)) is False or decide(st, n) is False or st.facts.get(('lt', C(0), n)) is False or \
        decide(st, mk_eq(n, C(0))) is True or st.facts.get(('lt', n, C(1))) is True


def heads(P, root):
    """the functions from an element (and more) to a rendered value that the rendering comes back to"""
    files = {root['file']}
    fs = {f['f']: f for f in P.fns.values() if f.get('body') is not None and f['file'] in files}
    calls = {u: {x['f'] for x in walk([f['body'], f.get('inits') or []]) if x.get('f') in fs} for u, f in fs.items()}
    def reach(u):
        seen, todo = set(), [u]
        while todo:
            for x in sorted(calls[todo.pop()]):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen
    order, todo = [root['f']], [root['f']]
    while todo:
        for x in sorted(calls[todo.pop(0)], key=lambda x: fs[x]['line']):
            if x not in order:
                order.append(x)
                todo.append(x)
    return [fs[u] for u in order if u in reach(u) and fs[u]['ps'] and P.ty(fs[u]['ps'][0]['t'])['s'] == 'const refract::IElement &'], [
        fs[u] for u in order]


def check(R, P):
    R.rule('The rendering of an element is followed on all paths for each of the 13 kinds; the value each path answers must '
           'hold the name of the element, its meta and its attributes where they are not empty, and its content where it '
           'has one, every entry and every child rendered by the same function in order; source maps are left out only '
           'when they are not asked for, and never below the attributes of an annotation.')
    roots = [f for f in P.named(ROOT) if f.get('body') is not None]
    if not roots:
        R.lose(ROOT)
        return
    root = roots[0]
    rec, fs = heads(P, root)
    for f in fs:
        R.seen(f)
    if not rec or len(rec[0]['ps']) != 2:
        R.undecided(loc(root), 'the function that renders an element is not one of an element and a flag')
    else:
        if rec[0] is not root:
            whole(R, P, root, rec[0])
        element(R, P, rec[0])
    R.floor('rendering of a kind', 13)


def whole(R, P, root, f):
    say = Say(R, root, 'the root')
    I = Interp(P, hooks=hooks(), noinline={f['b']})
    e, flag = [('obj', p['n']) for p in root['ps']]
    for o in I.run(root):
        if o.kind != 'ret':
            say.bad('answers nothing')
            continue
        v = norm(o.val[1] if o.val and o.val[0] == 'V' else o.val, f)
        want = decide(o.st, flag)
        if v[0] != 'any':
            say.unk('answers %s' % fmt(v)[:80])
        elif v[1] != e:
            say.bad('renders another element')
        elif truth(o.st, v[2], flag) != (flag if want is None else want):
            say.bad('does not ask for source maps as it was asked')
    R.ob('root', loc(root), say.ok is True)


def norm(v, f):
    """('any', place, flag) | (kind of value, data)"""
    while v and v[0] == 'ctor' and 'variant' in v[1] and len(v) == 3:
        v = v[2]
    if v and v[0] == 'ctor' and 'variant' in v[1] and len(v) == 2:
        return ('Null', None)
    if v and v[0] == 'call' and v[1] == f['b'] and len(v) >= 5:
        a = v[3]
        return ('any', a[1] if a[0] == 'addr' else a, v[4])
    if v and v[0] == 'rec':
        d = dict(v[2])
        t = d.get(('fld', '#type'))
        if t is not None:
            return (t[1][len(SO):], d.get(('fld', 'data')))
    return ('?', v)


def truth(st, t, flag):
    """True, False, the flag itself, or None"""
    d = decide(st, t)
    if d is not None:
        return d
    return flag if t == flag or t == ('T', flag) else None


def single(P, k):
    fl = [x for x in P.recs.get('refract::dsd::' + k, {}).get('fields', ()) if not x.get('static')]
    return fl[0]['n'] if len(fl) == 1 else None


def element(R, P, f):
    e, flag = [('obj', p['n']) for p in f['ps']]
    say0 = Say(R, f, 'an element')
    I = Interp(P, hooks=hooks(), noinline={f['b']}, max_states=6000)
    try:
        outs = I.run(f)
    except Budget:
        say0.unk('too many paths')
        return
    says = {k: Say(R, f, k) for k in KINDS}
    met = set()
    for o in outs:
        st = o.st
        k = None
        for a, b in st.facts.items():
            if b is True and a[0] == 'eq' and ('kind', e) in a[1:]:
                x = a[2] if a[1] == ('kind', e) else a[1]
                if x[0] == 's' and x[1].startswith('kind:'):
                    k = x[1][5:]
        say = says[k] if k in says else say0
        if o.kind != 'ret':
            say.bad('raises')
            continue
        ty, data = norm(o.val[1] if o.val and o.val[0] == 'V' else o.val, f)
        if ty == '?':
            say.unk('answers %s' % fmt(data)[:80])
            continue
        if ty != 'Object':
            say.bad('is no object')
            continue
        if k:
            met.add(k)
        path(say, P, I, st, f, e, flag, k, data)
    for k in KINDS:
        R.ob('rendering of a kind', k, says[k].ok is True and k in met and say0.ok is True)
        if k not in met:
            says[k].unk('is not rendered on a path of its own')
    for n in I.notes if isinstance(I.notes, (set, list, tuple)) else ():
        R.note(str(n)) if hasattr(R, 'note') else None


def pairs(say, st, data, what):
    segs = describe(st, data) if data is not None else []
    if segs is None or any(x[0] != 'one' for x in segs):
        say.unk('%s is made in a way that is not understood' % what)
        return None
    out = []
    for x in segs:
        d = dict(x[1][2]) if x[1][0] == 'rec' else {}
        n = d.get(('fld', 'first'))
        if not n or n[0] not in ('strlit', 's'):
            say.unk('%s has a key that is not understood' % what)
            return None
        out.append((n[1], d.get(('fld', 'second'))))
    return out


def path(say, P, I, st, f, e, flag, k, data):
    ps = pairs(say, st, data, 'the element')
    if ps is None:
        return
    keys = [p[0] for p in ps]
    order = [x for x in ('element', 'meta', 'attributes', 'content') if x in keys]
    if len(keys) != len(set(keys)):
        say.bad('a key is there twice')
    elif sorted(keys) != sorted(order):
        say.bad('has a part named %s' % [x for x in keys if x not in order][0])
    elif keys != order:
        say.bad('the parts come in another order')
    d = dict(ps)
    v = norm(d.get('element') or (), f)
    if v[0] != 'String' or v[1] != ('fld', e, 'name_'):
        (say.unk if v[0] == '?' and d.get('element') else say.bad)('its name is not what "element" holds')
    want = Asked(flag, False, decide(st, flag))
    ann = None
    for a, b in st.facts.items():
        if a[0] == 'eq' and ('fld', e, 'name_') in a[1:] and any(x in a[1:] for x in (('s', 'annotation'), ('strlit', 'annotation'))):
            ann = b
    # an annotation shows its source maps
    outer = decide(st, flag)
    for part, fld, fl in (('meta', 'meta_', Asked(flag, False, outer)), ('attributes', 'attributes_', Asked(flag, ann, outer))):
        src = ('fld', ('fld', e, fld), 'elements')
        if part in d:
            v = norm(d[part] or (), f)
            if v[0] == '?':
                say.unk('%s is %s' % (part, fmt(v[1])[:60]))
            elif v[0] != 'Object':
                say.bad('%s is no object' % part)
            else:
                listed(say, P, st, v[1], src, f, flag, fl, part)
        else:
            absent(say, P, st, src, f, flag, fl, part)
    has = decide(st, ('T', ('fld', e, 'hasValue_')))
    if 'content' not in d:
        if has is not False:
            say.bad('its content is left out')
        return
    if has is False:
        say.bad('has content without having a value')
        return
    if has is None:
        say.bad('has content whether or not it has a value')
        return
    content(say, P, st, f, e, flag, want, k, d['content'])


class Asked:
    """whether source maps are to be written: when asked for, and for all of an annotation's attributes"""
    def __init__(self, flag, ann, outer):
        self.flag, self.ann, self.outer = flag, ann, outer

    def at(self, st):
        """True, False, the flag itself, or None; 'never' on a path that cannot be"""
        x = decide(st, self.flag)
        if x is not None and self.outer is not None and x != self.outer:
            return 'never'
        x = self.outer if x is None else x
        x = self.flag if x is None else x
        if self.ann is True or x is True:
            return True
        return x if self.ann is False else None


def listed(say, P, st, term, src, f, flag, want, what):
    segs = describe(st, term) if term is not None else []
    if segs is None:
        say.unk('%s is made in a way that is not understood' % what)
        return False
    if len(segs) != 1 or segs[0][0] != 'map':
        if not segs and none_in(st, ('size', src)):
            return True
        (say.bad if not segs else say.unk)('%s does not come from its entries' % what)
        return False
    i = segs[0][1]
    r = i['range']
    if not whole_range(say, r, src, what):
        return False
    ok = True
    for kd, facts, vals in segs[0][2]:
        s = FactsOnly(facts)
        if kd in ('brk', 'ret'):
            say.bad('entries of %s that follow are left out' % what)
            continue
        p = ('elem', src, i['ix'])
        key = ('fld', p, 'first')
        sm = None
        for a, b in facts.items():
            if a[0] == 'eq' and key in a[1:] and any(x in a[1:] for x in (('s', 'sourceMap'), ('strlit', 'sourceMap'))):
                sm = b
        fl = want.at(s)
        if fl == 'never':
            continue
        if not vals:
            if facts.get(('T', ('fld', p, 'second'))) is False:
                continue
            if not (fl is False and sm is True):
                ok = False
                (say.unk if fl is None else say.bad)('an entry of %s is left out that is no source map, or although source maps are asked for' % what)
            continue
        if len(vals) != 1:
            say.bad('%d written for one entry of %s' % (len(vals), what))
            ok = False
            continue
        if fl is not True and sm is not False:
            ok = False
            (say.unk if fl is None else say.bad)('source maps in %s are written whether or not they are asked for' % what)
        d = dict(vals[0][2]) if vals[0][0] == 'rec' else {}
        if d.get(('fld', 'first')) != key:
            (say.bad if d else say.unk)('an entry of %s is not written under its key' % what)
            ok = False
        v = norm(d.get(('fld', 'second')) or (), f)
        if not rendered(say, s, v, ('at', ('fld', p, 'second')), flag, want, 'an entry of ' + what):
            ok = False
    return ok


def whole_range(say, r, src, what):
    if r is None:
        say.unk('%s come from a loop that is not understood' % what)
    elif r[0] == 'rrange':
        (say.bad if r[1] == ('rev', src) else say.unk)('%s come in reverse order' % what)
    elif r[1] != src:
        (say.bad if r[1][0] == 'fld' else say.unk)('%s come from %s' % (what, fmt(r[1])[:60]))
    elif r[2] != C(0) or r[3][0] != 'size':
        say.bad('%s: only those from %s to %s are written' % (what, fmt(r[2]), fmt(r[3])[:30]))
    else:
        return True
    return False


def rendered(say, st, v, place, flag, want, what):
    if v[0] == '?':
        say.unk('%s is %s' % (what, fmt(v[1])[:60] if v[1] else 'nothing'))
        return False
    if v[0] != 'any':
        say.bad('%s is not rendered but %s' % (what, v[0]))
        return False
    if v[1] != place:
        say.bad('%s is %s' % (what, fmt(v[1])[:60]))
        return False
    x = truth(st, v[2], flag)
    w = want.at(st)
    if w == 'never':
        return True
    if x is None:
        say.unk('%s: whether source maps are asked for is not understood' % what)
        return False
    if w is None:
        say.bad('%s: whether source maps are written does not depend on what is rendered' % what)
        return False
    if x != w:
        say.bad('%s: whether source maps are asked for is not passed on' % what)
        return False
    return True


def absent(say, P, st, src, f, flag, want, what):
    if none_in(st, ('size', src)):
        return
    for a, b in st.facts.items():
        n = next((x for x in a[1:] if isinstance(x, tuple) and x[0] == 'size' and x[1][0] == 'hv'), None)
        if n is not None and none_in(st, n):
            segs = describe(st, n[1])
            if segs and len(segs) == 1 and segs[0][0] == 'map' and segs[0][1]['range'] and segs[0][1]['range'][1] == src:
                listed(say, P, st, n[1], src, f, flag, want, what)
                return
    say.bad('%s are left out though there may be some' % what)


def content(say, P, st, f, e, flag, want, k, val):
    if k is None:
        say.unk('content is written before its kind is looked at')
        return
    v = norm(val or (), f)
    data = ('fld', e, 'data_')
    if v[0] == '?':
        say.unk('its content is %s' % fmt(v[1])[:60] if v[1] else 'nothing')
        return
    if k == 'Null':
        if v[0] != 'Null':
            say.bad('its content is %s' % v[0])
    elif k in ('String', 'Ref', 'Number'):
        n = single(P, k)
        t = 'Number' if k == 'Number' else 'String'
        if v[0] != t:
            say.bad('its content is written as %s' % v[0])
        elif v[1] != ('fld', data, n):
            (say.unk if n is None else say.bad)('its content is %s' % fmt(v[1])[:60])
    elif k == 'Boolean':
        b = decide(st, ('T', ('fld', data, single(P, k))))
        if b is None:
            say.bad('its content is %s whatever it holds' % v[0])
        elif v[0] != ('True' if b else 'False'):
            say.bad('its content is %s when it holds %s' % (v[0], str(b).lower()))
    elif k in ('Holder', 'Enum'):
        n = single(P, k)
        if n is None:
            say.unk('where it keeps its content is not known')
        elif decide(st, ('T', ('fld', data, n))) is not False:
            rendered(say, st, v, ('at', ('fld', data, n)), flag, want, 'its content')
    elif k == 'Member':
        member(say, P, st, f, data, flag, want, v)
    else:
        n = single(P, k)
        if n is None:
            say.unk('where it keeps its content is not known')
        elif v[0] != 'Array':
            say.bad('its content is written as %s' % v[0])
        else:
            entries(say, st, v[1], ('fld', data, n), f, flag, want)


def member(say, P, st, f, data, flag, want, v):
    if v[0] != 'Object':
        say.bad('its content is written as %s' % v[0])
        return
    ps = pairs(say, st, v[1], 'its content')
    if ps is None:
        return
    if [p[0] for p in ps] not in (['key', 'value'], ['key']):
        say.bad('its content has the parts %s' % ', '.join(p[0] for p in ps))
        return
    d = dict(ps)
    for part in ('key', 'value'):
        p = ('fld', data, part + '_')
        has = decide(st, ('T', p))
        if part in d:
            rendered(say, st, norm(d[part] or (), f), ('at', p), flag, want, 'its ' + part)
            if has is None and part == 'value':
                say.bad('its value is written whether or not it has one')
        elif has is not False:
            say.bad('its value is left out')


def entries(say, st, term, src, f, flag, want):
    segs = describe(st, term) if term is not None else []
    what = 'its elements'
    if segs is None or segs and (len(segs) != 1 or segs[0][0] != 'map'):
        i = loop_of(st.ev, term[1]) if term[0] == 'hv' else None
        if i is not None and any(x[0] == 'insert' and x[1] == term[2] and ('it', term[2], C(0)) in flat(x)
                                 for pth in i['paths'] for x in pth[2]):
            say.bad('%s come in another order' % what)
            return
        say.unk('%s are written in a way that is not understood' % what)
        return
    if not segs:
        if not none_in(st, ('size', src)):
            say.bad('%s are left out' % what)
        return
    i = segs[0][1]
    if not whole_range(say, i['range'], src, what):
        return
    p = ('elem', src, i['ix'])
    for kd, facts, vals in segs[0][2]:
        s = FactsOnly(facts)
        if kd in ('brk', 'ret'):
            say.bad('%s that follow are left out' % what)
        elif not vals:
            if facts.get(('T', p)) is not False:
                say.bad('one of %s is left out' % what)
        elif len(vals) != 1:
            say.bad('%d written for one of %s' % (len(vals), what))
        else:
            rendered(say, s, norm(vals[0], f), ('at', p), flag, want, 'one of ' + what)


def flat(x):
    r = [x]
    if isinstance(x, tuple):
        for y in x:
            r += flat(y) if isinstance(y, tuple) else []
    return r

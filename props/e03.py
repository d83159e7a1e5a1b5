"""E03: what is put into an element (or its content) is what comes out; moving and exchanging transfer every part."""
import refr
from absint import Interp, Budget, C, NULL, FALSE, TRUE, at, read, fmt, project, decide, mk_eq, EMPTY, size_of
from copies import copied, parts_of
from eqrule import shape
from front import loc, strip_targs
from refr import KINDS
from seqv import describe

RULE = 'value-in-is-value-out'
THIS = ('obj', 'this')
SEQ = ('Array', 'Object', 'Extend', 'Option', 'Select')


def check(R, P):
    R.rule('Every user-written exchange, move construction and by-value assignment of an element content or annotation '
           'list is followed on all paths: each member must end as the same member of the other side.')
    R.rule('Every value constructor and setter of the 13 content kinds and of their elements is followed, and every '
           'reader is then asked on the state it leaves: it must answer with what was put in, in order, and with '
           'nothing else; parts not set keep what they had.')
    transfers(R, P)
    contents(R, P)
    elements(R, P)
    factories(R, P)


def interp(P, **kw):
    h = refr.hooks()
    return Interp(P, hooks=h, max_states=kw.get('max_states', 600))


def repo(f):
    return not f['file'].startswith('/')


def moved(P, st, sh, v, src):
    """True / False / None and why: v is what was at src"""
    if v == src:
        return True, ''
    r = copied(P, st, sh, v, src)
    if r.ok is True:
        return True, ''
    if sh[0] == 'ptr' and v == NULL:
        return False, 'is left unset'
    if v in (EMPTY, NULL) or v[0] in ('fresh',) or v == ('ctor', 'std::vector'):
        return False, 'is left empty'
    base = v
    while base[0] in ('inserted', 'push', 'erased', 'without'):
        base = base[1]
    if base != v and base[0] == 'fld' and base[1][0] == 'obj' and base != src and decide(st, ('T', size_of(base))) is not False:
        return False, 'keeps former elements of %s' % fmt(base)
    root = v
    while root[0] in ('fld',):
        root = root[1]
    if root[0] == 'obj' and v[0] == 'fld':
        return False, 'is %s' % fmt(v)
    if r.ok is False and not r.why.startswith('is built'):
        return False, r.why
    return None, r.why


def transfers(R, P):
    done = set()
    for f in sorted(P.fns.values(), key=lambda f: (f['file'], f.get('line', 0), f['f'])):
        if not repo(f) or f.get('body') is None or f.get('dft') or f.get('imp') or (f['file'], f['line']) in done:
            continue
        n = f['n']
        t = [P.ty(p['t']) for p in f['ps']]
        recs = []
        for x in t:
            while x['k'] in ('ref', 'rref'):
                x = P.ty(x['p'])
            recs.append(x.get('q'))
        if n == 'swap' and len(t) == 2 and t[0]['k'] == 'ref' and recs[0] == recs[1] and recs[0] in P.recs:
            pairs, args, this, q = [(('obj', 'lhs'), ('obj', 'rhs')), (('obj', 'rhs'), ('obj', 'lhs'))], \
                [('obj', 'lhs'), ('obj', 'rhs')], None, recs[0]
            what = 'exchange'
        elif f.get('ck') in ('move', 'move=') or f.get('ck') == 'copy=' and t[0]['k'] != 'ref':
            pairs, args, this, q = [(THIS, ('obj', 'other'))], [('obj', 'other')], THIS, f['cls']
            what = {'move': 'move construction', 'move=': 'move assignment', 'copy=': 'assignment'}[f['ck']]
            if q not in P.recs:
                continue
        else:
            continue
        done.add((f['file'], f['line']))
        R.seen(f)
        what += ' of ' + strip_targs(q).replace('refract::', '')
        I = interp(P)
        try:
            outs = I.run(f, this, args)
        except Budget:
            R.undecided(loc(f), what + ': too many paths')
            continue
        good = True
        for o in outs:
            if o.kind != 'ret':
                continue
            # an object exchanged with (moved onto) itself keeps its parts
            a0 = this or args[0]
            if decide(o.st, mk_eq(('addr', a0), ('addr', args[-1]))) is True:
                continue
            for d, s in pairs:
                for fl in parts_of(P, q):
                    ok, why = moved(P, o.st, shape(P, fl['t']), read(o.st, ('fld', d, fl['n'])), ('fld', s, fl['n']))
                    if ok is None:
                        good = None if good else good
                        R.undecided(loc(f), '%s: member %s %s' % (what, fl['n'], why))
                    elif not ok:
                        good = False
                        R.violate(loc(f), RULE, '%s: member %s %s instead of taking over the other side\'s' % (
                            what, fl['n'], why), '%s|%s' % (what, fl['n']))
            if f.get('ck') in ('move=', 'copy=') and o.val is not None and o.val != ('L', THIS):
                good = False
                R.violate(loc(f), RULE, '%s does not return the assigned object' % what, what + '|ret')
        R.ob('exchange, move or by-value assignment', '%s %s' % (loc(f), what), good is True)
    R.floor('exchange, move or by-value assignment', 20)


def method(P, cls, n, np, const=None):
    for f in P.by_class(cls):
        if f['n'] == n and len(f['ps']) == np and f.get('body') is not None and f.get('ck') is None:
            if const is None or bool(f.get('const')) == const:
                yield f


def answer(I, st, v):
    """the value of a result: what a returned reference holds"""
    if v is None:
        return None
    return I.val(st, v)


def ask(R, P, f, st, args=None):
    """answers of a reader on a state: list of (state, value)"""
    R.seen(f)
    I = interp(P)
    res = []
    for o in I.run(f, THIS, args, st.copy()):
        if o.kind == 'ret':
            res.append((o.st, o.val, answer(I, o.st, o.val)))
    return res


def same(st, got, want, P=None, kind=None):
    if got == want:
        return True
    if kind is not None and got is not None:
        unk = False
        for fl in parts_of(P, 'refract::dsd::' + kind):
            ok, why = moved(P, st, shape(P, fl['t']), project(got, ('fld', fl['n'])), ('fld', want, fl['n']))
            if ok is False:
                return False
            unk = unk or ok is None
        return None if unk else True
    if got in (TRUE, FALSE):
        d = decide(st, want)
        if d is not None:
            return d is (got == TRUE)
    if want in (TRUE, FALSE):
        d = decide(st, got) if got is not None else None
        if d is None:
            return None
        return d is (want == TRUE)
    d = decide(st, mk_eq(got, want)) if got is not None else None
    if d is True:
        return True
    if got is None:
        return None
    if opaque(got):
        return None
    return False


def opaque(v):
    return isinstance(v[0], str) and v[0] in ('call', 'u', 'other', 'hv', 'free', 'op')


# reader -> which constructor parameter it must answer with
READERS = {
    'Enum': ['value'], 'Holder': ['data'], 'String': ['get', 'operator const std::string &'], 'Number': ['get'],
    'Ref': ['symbol'], 'Boolean': ['get', 'operator bool'],
}


def readers_of(P, cls):
    """argument-less public methods answering with (a reference to, a pointer to) a part"""
    for f in P.by_class(cls):
        if f.get('body') is None or f['ps'] or f.get('ck') or f.get('acc') != 'public' or f.get('static'):
            continue
        yield f


def judge(R, f, kind, what, got, st, want, key, P=None, rec=None):
    s = same(st, got, want, P, rec)
    if s is False and __import__("os").environ.get("DBG"): print("DBG", got, want, [(a,d) for a,d in st.facts.items()], st.ev[-3:])
    if s is True:
        R.ob(kind, '%s %s' % (loc(f), what), True)
    elif s is None:
        R.ob(kind, '%s %s' % (loc(f), what), False)
        R.undecided(loc(f), '%s: answers %s' % (what, fmt(got)[:80] if got else 'nothing the analysis follows'))
    else:
        R.ob(kind, '%s %s' % (loc(f), what), False)
        R.violate(loc(f), RULE, '%s: answers %s instead of %s' % (what, fmt(got)[:80], fmt(want)[:80]), key)


def run_ctor(R, P, f, args):
    R.seen(f)
    I = interp(P)
    try:
        return [o.st for o in I.run(f, THIS, args) if o.kind == 'ret'], I
    except Budget:
        R.undecided(loc(f), 'too many paths')
        return [], I


def contents(R, P):
    K = 'constructor or setter read back'
    for k in KINDS:
        cls = 'refract::dsd::' + k
        for f in sorted(P.by_class(cls), key=lambda f: (f['line'], f['f'])):
            if f.get('ck') != 'other' or f.get('body') is None or f.get('imp'):
                continue
            args = [('obj', 'a%d' % i) for i in range(len(f['ps']))]
            sts, I = run_ctor(R, P, f, args)
            for st in sts:
                read_back(R, P, k, cls, f, st, args, K)
        # default construction holds nothing
        if k in SEQ:
            for f in P.by_class(cls):
                if f.get('ck') == 'default' and f.get('body') is not None:
                    sts, I = run_ctor(R, P, f, [])
                    for st in sts:
                        seq_back(R, P, k, cls, f, st, [], K)
    member_setters(R, P, K)
    R.floor(K, 40)


def read_back(R, P, k, cls, f, st, args, K):
    ts = [P.ty(p['t']) for p in f['ps']]
    if k in SEQ:
        seq_back(R, P, k, cls, f, st, args, K)
        return
    if k == 'Member' and len(args) == 2:
        for g in method(P, cls, 'value', 0):
            for s, _, v in ask(R, P, g, st):
                judge(R, g, K, 'the value of a member built by %s' % loc(f), v, s, args[1], 'Member|value')
        for g in method(P, cls, 'key', 0):
            for s, _, v in ask(R, P, g, st):
                if ts[0]['k'] in ('ref', 'rref') or 'basic_string' in ts[0]['s']:
                    key_from_text(R, P, g, f, s, v, args[0], K)
                else:
                    judge(R, g, K, 'the key of a member built by %s' % loc(f), v, s, args[0], 'Member|key')
        return
    if len(args) != 1:
        return
    want = args[0]
    t = ts[0]
    if k == 'Number' and t['k'] in ('int', 'uint'):
        want = None
    if k == 'String' and t['k'] in ('ptr', 'arr'):
        return
    for g in readers_of(P, cls):
        if g['n'] not in READERS.get(k, ()) and not (k == 'String' and g['n'].startswith('operator')):
            continue
        for s, _, v in ask(R, P, g, st):
            if want is None:
                ok = v is not None and v[0] in ('to_string', 'tostr') or v is not None and 'to_string' in repr(v) and repr(args[0]) in repr(v)
                R.ob(K, '%s the text of a number built by %s' % (loc(g), loc(f)), ok)
                if not ok:
                    if v is not None and repr(args[0]) in repr(v):
                        R.undecided(loc(g), 'the text of a number is %s' % fmt(v)[:80])
                    else:
                        R.violate(loc(g), RULE, 'the text of a number built from an integer is %s' % (v and fmt(v)[:80]),
                                  'Number|text')
                continue
            judge(R, g, K, '%s of a %s built by %s' % (g['n'], k, loc(f)), v, s, want, '%s|%s' % (k, g['n']))
    if k in ('Enum', 'Holder'):
        claims(R, P, k, cls, st, args[0], K)


def claims(R, P, k, cls, st, want, K):
    """handing over the value gives it away and leaves nothing"""
    for g in method(P, cls, 'claim', 0):
        for s, _, v in ask(R, P, g, st):
            judge(R, g, K, 'what a %s hands over' % k, v, s, want, '%s|claim' % k)
            for r in method(P, cls, 'data' if k == 'Holder' else 'value', 0):
                for s2, _, v2 in ask(R, P, r, s):
                    judge(R, r, K, 'what a %s holds after handing its value over' % k, v2, s2, NULL, '%s|claimed' % k)


def key_from_text(R, P, g, f, st, v, text, K):
    what = 'the key of a member built by %s' % loc(f)
    if v is None or v[0] != 'new':
        R.undecided(loc(f), '%s is %s' % (what, v and fmt(v)[:60]))
        return
    h = v[1]
    name, data = refr.kind_of(h[3]), read(st, ('fld', h, 'data_'))
    hv = read(st, ('fld', h, 'hasValue_'))
    tv = project(data, ('fld', 'value_'))
    ok = name == 'String' and decide(st, hv) is True and tv == text
    R.ob(K, '%s %s' % (loc(g), what), ok)
    if not ok:
        if name not in (None, 'String') or decide(st, hv) is False or tv[0] in ('s', 'empty', 'fresh') or \
                tv[0] == 'obj' and tv != text:
            R.violate(loc(f), RULE, '%s is not a string element of the given text (%s, %s)' % (what, name, fmt(tv)[:60]),
                      'Member|key-text')
        else:
            R.undecided(loc(f), '%s is %s' % (what, fmt(tv)[:60]))


def member_setters(R, P, K):
    cls = 'refract::dsd::Member'
    from absint import St
    for f in method(P, cls, 'value', 1):
        sts, I = run_ctor(R, P, f, [('obj', 'a0')])
        for st in sts:
            for g in method(P, cls, 'value', 0):
                for s, _, v in ask(R, P, g, st):
                    judge(R, g, K, 'the value of a member after %s' % loc(f), v, s, ('obj', 'a0'), 'Member|set-value')
            for g in method(P, cls, 'key', 0):
                for s, _, v in ask(R, P, g, st):
                    base = [x[2] for x in ask(R, P, g, St())]
                    judge(R, g, K, 'the key of a member after its value was set', v, s, base[0], 'Member|set-value-key')
    for g in method(P, cls, 'claim', 0):
        for r in method(P, cls, 'value', 0, True):
            before = [x[2] for x in ask(R, P, r, St())]
            for s, _, v in ask(R, P, g, St()):
                judge(R, g, K, 'what a member hands over', v, s, before[0], 'Member|claim')
                for s2, _, v2 in ask(R, P, r, s):
                    judge(R, r, K, 'the value of a member after it was handed over', v2, s2, NULL, 'Member|claimed')


def seq_back(R, P, k, cls, f, st, args, K):
    """iteration sees exactly the given elements, in order"""
    what = 'the elements of a %s built by %s' % (k, loc(f))
    bs, es = list(method(P, cls, 'begin', 0)), list(method(P, cls, 'end', 0))
    if not bs or not es:
        R.lose('iteration of ' + cls)
        return
    for b in bs:
        for e in es:
            if bool(b.get('const')) != bool(e.get('const')):
                continue
            for s, _, bv in ask(R, P, b, st):
                for s2, _, ev in ask(R, P, e, s):
                    iterated(R, P, b, e, s2, bv, ev, args, what, k, K)


def iterated(R, P, b, e, st, bv, ev, want, what, k, K):
    if bv is None or ev is None or bv[0] != 'it' or ev[0] != 'it' or bv[1] != ev[1]:
        R.undecided(loc(b), '%s: begin is %s, end is %s' % (what, bv and fmt(bv)[:40], ev and fmt(ev)[:40]))
        R.ob(K, '%s %s' % (loc(b), what), False)
        return
    c = bv[1]
    cv = read(st, c)
    n = size_of(cv)
    d = describe(st, cv)
    bad = None
    if bv[2] != C(0):
        bad = 'iteration starts at %s' % fmt(bv[2])[:40]
    elif ev[2] not in (n, size_of(c)) and ev[2] != C(len(want)):
        bad = 'iteration ends at %s' % fmt(ev[2])[:40]
    elif d is None:
        R.undecided(loc(b), '%s: %s' % (what, fmt(cv)[:60]))
        R.ob(K, '%s %s' % (loc(b), what), False)
        return
    elif d != [('one', w) for w in want]:
        bad = 'they are %s' % ', '.join(fmt(x[1])[:40] if x[0] == 'one' else x[0] for x in d)
    R.ob(K, '%s %s' % (loc(b), what), bad is None)
    if bad:
        R.violate(loc(b), RULE, '%s: %s' % (what, bad), '%s|elements' % k)


def ekey(k, x):
    return 'Element|%s|%s' % (k, x)


def elements(R, P):
    K = 'element constructor or setter read back'
    for k in KINDS:
        cls = 'refract::Element<refract::dsd::%s>' % k
        fs = [f for f in P.by_class(cls) if f.get('body') is not None]
        if not fs:
            R.lose('element class ' + cls)
            continue
        rd = {n: list(method(P, cls, n, 0)) for n in ('get', 'meta', 'attributes', 'element', 'empty')}
        kname = None
        from absint import St
        # readers of distinct parts answer with distinct parts, and both forms of one reader with the same
        places = {}
        for n in ('get', 'meta', 'attributes'):
            for g in rd[n]:
                for s, raw, v in ask(R, P, g, St()):
                    if raw is None or raw[0] != 'L':
                        R.undecided(loc(g), '%s of %s answers no place' % (n, k))
                        continue
                    places.setdefault(n, set()).add(raw[1])
        ok = all(len(v) == 1 for v in places.values()) and len({tuple(sorted(v, key=repr)) for v in places.values()}) == len(places)
        for a in places:
            if len(places[a]) > 1:
                R.violate(loc(fs[0]), RULE, 'the forms of %s() of a %s element answer different parts: %s' % (
                    a, k, ', '.join(fmt(x) for x in places[a])), ekey('any', a))
            for b in places:
                if a < b and places[a] & places[b]:
                    R.violate(loc(fs[0]), RULE, '%s() and %s() of a %s element answer the same part' % (a, b, k),
                              ekey('any', a + b))
        R.ob(K, '%s readers of a %s element' % (loc(fs[0]), k), ok)

        def back(f, st, n, want, what):
            for g in rd[n]:
                for s, _, v in ask(R, P, g, st):
                    judge(R, g, K, '%s of a %s element after %s' % (n, k, what), v, s, want, ekey('any', n), P,
                          k if n == 'get' else None)
        for f in fs:
            np = len(f['ps'])
            args = [('obj', 'a%d' % i) for i in range(np)]
            if f.get('ck') == 'other':
                sts, I = run_ctor(R, P, f, args)
                for st in sts:
                    back(f, st, 'empty', FALSE, 'construction from content')
                    back(f, st, 'get', args[-1], 'construction from content')
                    if np == 2:
                        back(f, st, 'element', args[0], 'construction with a name')
            elif f.get('ck') == 'default':
                sts, I = run_ctor(R, P, f, [])
                for st in sts:
                    back(f, st, 'empty', TRUE, 'default construction')
            elif f['n'] == 'set' and np == 1:
                sts, I = run_ctor(R, P, f, args)
                for st in sts:
                    back(f, st, 'empty', FALSE, 'its content was set')
                    back(f, st, 'get', args[0], 'its content was set')
                    kept(R, P, K, rd, st, ('meta', 'attributes', 'element'), k, 'its content was set')
            elif f['n'] == 'element' and np == 1:
                sts, I = run_ctor(R, P, f, args)
                for st in sts:
                    back(f, st, 'element', args[0], 'it was named')
                    kept(R, P, K, rd, st, ('meta', 'attributes'), k, 'it was named')
                for c in fs:
                    if c.get('ck') == 'default' or c.get('ck') == 'other' and len(c['ps']) == 1:
                        a0 = [('obj', 'c0')][:len(c['ps'])]
                        for st0 in run_ctor(R, P, c, a0)[0]:
                            for o in interp(P).run(f, THIS, args, st0.copy()):
                                if o.kind == 'ret':
                                    back(f, o.st, 'empty', FALSE if a0 else TRUE, 'it was named')
                                    if a0:
                                        back(f, o.st, 'get', a0[0], 'it was named')
        # the name an element has by itself is that of its kind, whatever way it came about
        names = set()
        for f in fs:
            if f.get('ck') == 'default' or f.get('ck') == 'other' and len(f['ps']) == 1:
                sts, I = run_ctor(R, P, f, [('obj', 'a0')][:len(f['ps'])])
                for st in sts:
                    for g in rd['element']:
                        for s, _, v in ask(R, P, g, st):
                            names.add(v)
                            if v is not None and not opaque(v) and k not in repr(v) and not mentions_name(v, k):
                                R.violate(loc(f), RULE, 'a new %s element is named %s' % (k, fmt(v)[:60]), ekey(k, 'name'))
        R.ob(K, '%s name of a new %s element' % (loc(fs[0]), k), len(names) <= 1)
        if len(names) > 1:
            R.violate(loc(fs[0]), RULE, 'new %s elements are named differently by different constructors: %s' % (
                k, ', '.join(fmt(x)[:40] for x in names)), ekey(k, 'names'))
    R.floor(K, 200)


def mentions_name(v, k):
    return False


def kept(R, P, K, rd, st, what, k, when):
    from absint import St
    for n in what:
        for g in rd[n]:
            b = [x[2] for x in ask(R, P, g, St())]
            for s, _, v in ask(R, P, g, st):
                judge(R, g, K, '%s of a %s element after %s' % (n, k, when), v, s, b[0], ekey('any', n + '-kept'))


def factories(R, P):
    K = 'element factory'
    for f in sorted(P.fns.values(), key=lambda f: (f['file'], f.get('line', 0), f['f'])):
        if f['b'] not in ('refract::make_element', 'refract::make_empty', 'refract::from_primitive',
                          'refract::from_primitive_t') or f.get('body') is None:
            continue
        R.seen(f)
        I = interp(P)
        args = [('obj', 'a%d' % i) for i in range(len(f['ps']))]
        ret = P.ty(f['ret'])['s']
        try:
            outs = I.run(f, None, args)
        except Budget:
            R.undecided(loc(f), 'too many paths')
            continue
        good = True
        for o in outs:
            if o.kind != 'ret' or o.val is None:
                continue
            v = I.val(o.st, o.val)
            if v[0] != 'new' or refr.kind_of(v[1][3]) is None:
                good = None
                R.undecided(loc(f), '%s returns %s' % (f['q'][:60], fmt(v)[:60]))
                continue
            h = v[1]
            hv = decide(o.st, read(o.st, ('fld', h, 'hasValue_')))
            want = f['b'] != 'refract::make_empty'
            if hv is None:
                R.undecided(loc(f), 'presence of a value is %s' % fmt(read(o.st, ('fld', h, 'hasValue_')))[:60])
                good = None
            elif hv != want:
                good = False
                R.violate(loc(f), RULE, '%s gives an element %s a value' % (f['b'], 'with' if hv else 'without'), f['b'] + '|presence')
            if f['b'] == 'refract::from_primitive_t':
                nm = read(o.st, ('fld', h, 'name_'))
                if nm != args[0] and not opaque(nm):
                    good = False
                    R.violate(loc(f), RULE, '%s names the element %s' % (f['b'], fmt(nm)[:60]), f['b'] + '|name')
            if f['b'] == 'refract::make_empty':
                continue
            data = read(o.st, ('fld', h, 'data_'))
            for a in args[-1:]:
                if repr(a) not in repr(data) and not unknown_in(data) and not deep(o.st, h, a):
                    good = False
                    R.violate(loc(f), RULE, '%s loses its argument: the content is %s' % (f['b'], fmt(data)[:80]), f['b'] + '|content')
        R.ob(K, '%s %s' % (loc(f), f['q'][:80]), good is True)
    R.floor(K, 10)


def unknown_in(v):
    return isinstance(v, tuple) and (bool(v) and opaque(v) or any(unknown_in(x) for x in v if isinstance(x, tuple)))


def deep(st, h, a):
    """does anything stored below the new element mention the argument"""
    for l, v in st.store.items():
        if repr(h) in repr(l) and repr(a) in repr(v):
            return True
    return False

"""R02: the report says every annotation, once, with all that is known of it."""
import q01
import refr
from absint import Interp, Budget, C, NULL, TRUE, FALSE, EMPTY, St, at, read, write, fmt, decide, assume, mk_eq, size_of, mentions
from front import loc
from q01 import If, Val, fld, entry, as_kind, leaves, loops_of, merge, strange, short
from say import Say
from seqv import FactsOnly
from spec import odd

RULE = 'reported-once-and-whole'
OK = ('gv', 'OK')
DROPPED = ('what was written is dropped',)
QUIET = {'(ctor)', 'flush', 'good', 'fail', 'bad', 'eof', 'operator bool', 'rdbuf', 'tellp', '(dtor)'}
ITER = 'std::ostream_iterator'


def check(R, P):
    R.rule('What the two functions that report write to the standard error is followed on all paths, as the sequence of '
           'texts, values and loops over what is reported, with the texts of streams put in where they are read. Each path '
           'is held against the sequence the report is to have for what the path has found out: an empty line, OK or the '
           'error, and for every annotation its severity, code, text and each of its locations, one line each.')
    for f in P.named('PrintReport'):
        if f.get('body') is None or not f['ps']:
            continue
        t = P.ty(f['ps'][0]['t'])['s']
        if 'Report' in t:
            of_report(R, P, f)
        else:
            of_result(R, P, f)
    R.floor('report', 2)
    R.floor('annotation as text', 1)


# ---- vocabulary --------------------------------------------------------------------------------------------

def make_hooks(P):
    H = q01.make_hooks(P)
    inner, ictor = H['call'], H['ctor']

    def ctor(I, e, s, fr, l, args):
        q = e['q'].rsplit('::', 1)[0]
        if q.startswith('refract::Iterate<') and len(args) == 1 and e.get('ck') not in ('copy', 'move'):
            write(s, ('fld', l, 'functor'), ('walk', q[len('refract::Iterate<'):-1], I.as_loc(s, args[0])))
            return [s]
        if q.startswith(ITER) and e.get('ck') not in ('copy', 'move') and len(args) in (1, 2):
            write(s, l, ('lines to', I.as_loc(s, args[0]), I.val(s, args[1]) if len(args) == 2 else EMPTY))
            return [s]
        return ictor(I, e, s, fr, l, args)

    def call(I, e, b, s, fr, ob, args):
        f = P.fns.get(e['f'])
        if b == 'drafter::GetLineFromMap' and len(args) == 2:
            l = I.as_loc(s, args[1])
            return [(s, ('V', ('pos', I.val(s, args[0]), read(s, ('fld', l, 'location')), read(s, ('fld', l, 'length')))))]
        if b == 'drafter::GetLinesEndIndex':
            return [(s, ('V', ('lines', I.val(s, args[0]))))]
        if f is not None and f.get('cls') == 'refract::dsd::Number' and f['n'].startswith('operator ') and not args:
            return [(s, ('V', ('num', read(s, ('fld', ob, 'value_')))))]
        if ob is not None and f is not None and says_element(P, f) and len(args) == 1:
            rec = ('rec', ('of', ob), tuple((('fld', n), read(s, ('fld', ob, n))) for n in fields_of(P, f)))
            return [(s, ('V', ('apply', rec, I.val(s, args[0]))))]
        if ob is not None and b == 'refract::Iterate::operator()' and len(args) == 1:
            w = read(s, ('fld', ob, 'functor'))
            if w[0] == 'walk':
                fl = w[2]
                write(s, ('fld', fl, 'selected'), ('sel', w[1].rsplit('::', 1)[-1], I.as_loc(s, args[0]), read(s, ('fld', fl, 'query')),
                                                  read(s, ('fld', fl, 'selected'))))
                return [(s, ('V', ('void',)))]
        return inner(I, e, b, s, fr, ob, args)
    H['call'], H['ctor'] = call, ctor
    return H


def says_element(P, f):
    """an object of this file that makes text of an element"""
    return f['n'] == 'operator()' and f['file'].endswith('reporting.cc') and 'lambda' not in f['q'] and len(f['ps']) == 1 and \
        f.get('body') is not None and P.ty(f['ps'][0]['t'])['s'].startswith('const refract::IElement')


def fields_of(P, f):
    return [x['n'] for x in P.recs.get(f.get('cls') or '', {}).get('fields', ()) if not x.get('static')]


def text(v):
    """the characters a value is written as, or None"""
    if v[0] in ('s', 'strlit'):
        return v[1]
    if v == EMPTY:
        return ''
    if v[0] == 'c' and isinstance(v[1], int) and (v[1] in (9, 10, 13) or 32 <= v[1] < 127):
        return chr(v[1])
    if v[0] == 'fn' and len(v) > 2:
        if v[2] == 'std::endl':
            return '\n'
        if v[2] == 'std::flush':
            return ''
    return None


def put(out, it):
    if it[0] == 't':
        if not it[1]:
            return
        if out and out[-1][0] == 't':
            out[-1] = ('t', out[-1][1] + it[1])
            return
    out.append(it)


def items(ev, stream):
    """what goes to the stream: ('t', characters) | ('v', value) | ('over', info, [(kind, facts, items, events, value)])"""
    out = []

    def both(v):
        if v[0] == 'strof':
            for x in items(ev[:v[2]], v[1]):
                put(out, x)
            return
        t = text(v)
        put(out, ('t', t) if t is not None else ('v', v))
    for e in ev:
        if e[0] == 'copyto' and e[1][0] == 'lines to' and e[1][1] == stream:
            both(e[2])
            both(e[1][2])
        elif e[0] == 'out' and e[1] == stream:
            v = e[2]
            both(v)
        elif e[0] == 'call' and e[2] == ('addr', stream) and e[1].rsplit('::', 1)[-1] not in QUIET:
            m = e[1].rsplit('::', 1)[-1]
            if m == 'str':
                if e[3]:
                    put(out, ('v', DROPPED))
            elif m == 'put' and len(e[3]) == 1:
                both(e[3][0])
            else:
                put(out, ('v', ('other', m)))
        elif e[0] == 'loop':
            ps = [(k, f, items(x, stream), x, val) for k, f, x, val in e[1]['paths']]
            if any(p[2] for p in ps):
                out.append(('over', e[1], ps))
    return out


# ---- what ought to be written --------------------------------------------------------------------------------

def tree(parts, got=()):
    """parts: functions (then) -> tree, where then(items) -> tree; answers the tree of the items in order"""
    def go(i, got):
        if i == len(parts):
            return Val(tuple(got))
        p = parts[i]
        if isinstance(p, tuple):
            return go(i + 1, got + [p])
        return p(lambda *more: go(i + 1, got + list(more)))
    return go(0, list(got))


def T(x):
    return ('t', x)


def V(x):
    return ('v', x)


def place(pos):
    return (T('; line '), V(('fld', pos, 'fromLine')), T(', column '), V(('fld', pos, 'fromColumn')), T(' - line '),
            V(('fld', pos, 'toLine')), T(', column '), V(('fld', pos, 'toColumn')))


def is_first(ix):
    return mk_eq(C(0), ix)


def of_annotation(a, source, lines):
    """parts of what is written of an annotation of a parser report"""
    L = fld(a, 'location')

    def one(x, ix):
        pos = ('pos', ('lines', source), fld(x, 'location'), fld(x, 'length'))
        return tree([lambda k: If(('T', lines), k(*place(pos)),
                                  If(is_first(ix), k(T(' :'), V(fld(x, 'location')), T(':'), V(fld(x, 'length'))),
                                     k(T(';'), V(fld(x, 'location')), T(':'), V(fld(x, 'length')))))])
    return [lambda k: If(mk_eq(fld(a, 'code'), OK), k(), k(T(' ('), V(fld(a, 'code')), T(') '))),
            lambda k: If(('T', size_of(fld(a, 'message'))), k(T(' '), V(fld(a, 'message'))), k()),
            ('over', L, one),
            T('\n')]


def element_text(e, lines, index):
    """parts of what is written of an annotation element (e: where it is)"""
    def classes(k):
        def has(p):
            L = fld(at(p), 'data_', 'elements_')
            x = ('elem', L, C(0))
            return as_kind(p, 'Array', If(mk_eq(C(1), size_of(L)),
                                          as_kind(x, 'String', k(V(fld(at(x), 'data_', 'value_')), T(': ')), k()), k()), k())
        return entry(e, 'meta_', ('s', 'classes'), has, k())

    def code(k):
        return entry(e, 'attributes_', ('s', 'code'),
                     lambda p: as_kind(p, 'Number', k(T('('), V(fld(at(p), 'data_', 'value_')), T(')  ')), k()), k())

    def message(k):
        return If(mk_eq(('kind', e), refr.kc('String')), k(V(fld(e, 'data_', 'value_'))), k())

    def one(x, ix):
        M = fld(at(x), 'data_', 'elements_')
        a, b = ('elem', M, C(0)), ('elem', M, C(1))
        na, nb = fld(at(a), 'data_', 'value_'), fld(at(b), 'data_', 'value_')

        def nums(yes, no):
            return as_kind(x, 'Array', If(mk_eq(C(2), size_of(M)), as_kind(a, 'Number', as_kind(b, 'Number', yes, no), no), no), no)
        pos = ('pos', index, ('num', na), ('num', nb))
        off = (V(na), T(':'), V(nb))
        return tree([lambda k: If(('T', lines), nums(k(*place(pos)), k()),
                                  If(is_first(ix), nums(k(T(' :'), *off), k(T(' :'))), nums(k(T(';'), *off), k(T(';')))))])

    def maps(k):
        def has(p):
            L = fld(at(p), 'data_', 'elements_')
            x = ('elem', L, C(0))
            M = fld(at(x), 'data_', 'elements_')
            return as_kind(p, 'Array', If(mk_eq(C(1), size_of(L)), as_kind(x, 'Array', k(('over', M, one)), k()), k()), k())
        return entry(e, 'attributes_', ('s', 'sourceMap'), has, k())
    return [classes, code, message, maps]


# ---- a path against it ------------------------------------------------------------------------------------------

def alike(t):
    """the global OK by one name, for what it is compared with"""
    if isinstance(t, tuple):
        if t and t[0] == 'gv' and len(t) > 1 and isinstance(t[1], str) and t[1].endswith('@OK'):
            return OK
        return tuple(alike(x) for x in t)
    return t


def facts_of(facts):
    d = {}
    for a, v in facts.items():
        a = alike(a)
        d[a] = v
        # entries are told apart by what they hold: the first is the one at 0
        if a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 'elem' and y[0] == 'elem' and x[1] == y[1] and x[2] == C(0) and y[2][0] == 'ix':
                    d[('T', y[2])] = not v
    return d


def clean(st):
    s = st.copy() if isinstance(st, St) else FactsOnly(dict(st.facts))
    s.facts = facts_of(st.facts)
    return s


class Only(FactsOnly):
    def copy(self):
        return Only(dict(self.facts))


def norm(xs):
    r = []
    for x in xs:
        put(r, x)
    return r


def compare(say, st, got, want, where=''):
    """got: items of a path; want: items that ought to be there"""
    def none(x):
        """a walk over what has no entries"""
        if x[0] != 'over':
            return False
        L = x[1]
        if isinstance(L, dict):
            if ranged(x) is None:
                return False
            L = ranged(x)[1]
        return decide(st, ('T', size_of(L))) is False
    got, want = norm([x for x in got if not none(x)]), norm([x for x in want if not none(x)])
    i = j = 0
    while i < len(got) or j < len(want):
        g = got[i] if i < len(got) else None
        w = want[j] if j < len(want) else None
        if w is not None and w[0] == 'over' and (g is None or g[0] != 'over' or not over_of(g, w)):
            if g is not None and g[0] == 'over' and ranged(g) is None:
                if skips(g, w[1]):
                    return say.bad('%snot every entry of %s is said' % (where, short(w[1])))
                return say.unk('what is gone over is not understood')
            return say.bad('%sthe entries of %s are not said%s' % (where, short(w[1]), near(g)))
        if g is None:
            return say.bad('%s%s is not said' % (where, name(w)))
        if w is None:
            if g[0] == 'over' and ranged(g) is None:
                return say.unk('what is gone over is not understood')
            return say.bad('%s%s is said, where nothing more is due' % (where, name(g)))
        if g[0] == 'over':
            if w[0] != 'over':
                return say.bad('%sa loop is written where %s is due' % (where, name(w))) if ranged(g) else say.unk(
                    'what is gone over is not understood')
            body(say, st, g, w, where)
        elif g[0] == 't' and w[0] == 't':
            if g[1] != w[1]:
                return say.bad('%ssays %r, not %r' % (where, g[1][:40], w[1][:40]))
        elif g[0] == 'v' and w[0] == 'v':
            if alike(g[1]) != alike(w[1]):
                d = decide(st, mk_eq(alike(g[1]), alike(w[1])))
                if d is not True:
                    return say.unk('what is said is not understood: %s' % short(g[1])) if odd(g[1]) else say.bad(
                        '%ssays %s, not %s' % (where, short(g[1]), short(w[1])))
        elif g[0] == 'v' and odd(g[1]):
            return say.unk('what is said is not understood: %s' % short(g[1]))
        else:
            return say.bad('%ssays %s, not %s' % (where, name(g), name(w)))
        i += 1
        j += 1


def near(g):
    return '' if g is None else ': ' + name(g) + ' comes instead'


def name(x):
    return repr(x[1][:40]) if x[0] == 't' else short(x[1]) if x[0] == 'v' else 'a loop'


def ranged(g):
    r = g[1].get('range')
    return r if r is not None and len(r) == 4 else None


def skips(g, L):
    """a walk by hand over the list which does not begin with its first entry or does not go one by one"""
    return any(a0[0] == 'it' and a0[1] == L and (a0[2][0] == 'c' and a0[2] != C(0) or step not in (1, -1))
               for l, a0, step in g[1].get('ind') or ())


def over_of(g, w):
    r = ranged(g)
    return r is not None and r[1] == w[1]


def body(say, st, g, w, where):
    info = g[1]
    r = ranged(g)
    if r[2] != C(0) or r[3] != size_of(w[1]):
        return say.bad('%sonly the entries from %s to %s of %s are said' % (where, fmt(r[2]), fmt(r[3]), short(w[1])))
    x = ('elem', w[1], info['ix'])
    for kind, facts, its, ev, val in g[2]:
        if kind not in ('norm', 'cont'):
            if kind == 'throw':
                say.unk('a step may raise')
            else:
                say.bad('%sthe entries of %s are not all said' % (where, short(w[1])))
            continue
        for facts, its in by_turn(info, facts, its):
            d = dict(st.facts)
            d.update(facts_of(facts))
            s = Only(d)
            want = w[2](x, info['ix'])
            if callable(want):
                want(say, s, its, info)
                continue
            held(say, s, its, want, where)


def by_turn(info, facts, its):
    """the path as it is at the first entry and as it is at the others, where it asks what it left itself the turn before"""
    n = info['ix'][1]
    hs = set()

    def find(t):
        if isinstance(t, tuple):
            if len(t) > 2 and t[0] == 'hv' and t[1] == n:
                hs.add(t)
            else:
                for x in t:
                    find(x)
    for a in facts:
        find(a)
    find(tuple(x for x in its if x[0] != 'over'))
    if not hs or not info.get('ends'):
        return [(facts, its)]
    r = []
    for first in (True, False):
        to = {}
        for h in hs:
            if first:
                to[h] = read(info['prestore'], h[2])
            else:
                es = {read(s, h[2]) for _, s in info['ends']}
                to[h] = es.pop() if len(es) == 1 else h

        def put_in(t):
            if isinstance(t, tuple):
                return to[t] if t in to else tuple(put_in(x) for x in t)
            return t
        d = {('T', info['ix']): not first}
        for a, v in facts.items():
            b = put_in(a)
            if b != a and b[0] == 'T' and b[1][0] == 'c':
                if bool(b[1][1]) != v:
                    break
                continue
            if b != a and b[0] == 'not' and b[1][0] == 'T' and b[1][1][0] == 'c':
                if bool(b[1][1][1]) == v:
                    break
                continue
            d[b] = v
        else:
            out = []
            for x in its:
                if x[0] == 'v':
                    w = put_in(x[1])
                    x = ('t', text(w)) if text(w) is not None else ('v', w)
                put(out, x)
            r.append((d, out))
    return r


def held(say, s, its, want, where=''):
    for s2, leaf in leaves(s, want):
        sub = Say(say.R, say.f, say.what, say.rule)
        if [a for a in s.facts if a[0] != 'live' and odd(a)]:
            sub.bad = sub.unk
        compare(sub, s2, its, list(leaf), where)
        if sub.ok is not True:
            say.ok = sub.ok if say.ok is not False else False


def run(P, f, this=('obj', 'this')):
    I = Interp(P, hooks=make_hooks(P), max_states=4000, max_depth=14)
    return I, I.run(f, this)


def cerr(ev):
    """the standard error stream, as it is called in the events"""
    r = set()

    def go(ev):
        for e in ev:
            if e[0] == 'out' and mentions_name(e[1], 'cerr'):
                r.add(e[1])
            elif e[0] == 'loop':
                for p in e[1]['paths']:
                    go(p[2])
    go(ev)
    return r


def mentions_name(t, n):
    if isinstance(t, tuple):
        return any(mentions_name(x, n) for x in t)
    return isinstance(t, str) and t.endswith('@' + n)


def others(ev, stream, bad):
    for e in ev:
        if e[0] == 'out' and e[1] != stream and (mentions_name(e[1], 'cout') or mentions_name(e[1], 'clog')):
            bad.add(e[1])
        elif e[0] == 'loop':
            for p in e[1]['paths']:
                others(p[2], stream, bad)
    return bad


def params(P, f):
    r = {}
    for p in f['ps']:
        r.setdefault(P.ty(p['t'])['s'].replace('const ', '').rstrip('& *').strip(), ('obj', p['n']))
    return r


def each_path(R, P, f, what, want):
    R.seen(f)
    say = Say(R, f, what, RULE)
    try:
        I, outs = run(P, f)
    except Budget:
        say.unk('too many paths')
        outs = []
    for o in outs:
        if o.kind == 'throw':
            say.unk('raises')
            continue
        ss = cerr(o.st.ev)
        if len(ss) != 1:
            say.bad('nothing is written to the standard error') if not ss else say.unk('more than one standard error')
            continue
        stream = ss.pop()
        if others(o.st.ev, stream, set()):
            say.bad('part of the report is written to the standard output')
        held(say, clean(o.st), items(o.st.ev, stream), want(o))
    R.ob('report', '%s %s (%d paths)' % (loc(f), f['q'][:60], len(outs)), say.ok is True and bool(outs))


def of_report(R, P, f):
    ps = params(P, f)
    rep = ('obj', f['ps'][0]['n'])
    src = next((v for k, v in ps.items() if 'basic_string' in k), None)
    lines = ps.get('bool')
    if src is None or lines is None:
        return R.lose('the parameters of PrintReport')
    W = fld(rep, 'warnings')
    err = fld(rep, 'error')

    def want(o):
        w = tree([lambda k: If(mk_eq(fld(err, 'code'), OK), k(T('OK.\n')),
                               parts_then([T('error:')] + of_annotation(err, src, lines), k)),
                  ('over', W, lambda x, ix: tree([T('warning:')] + of_annotation(x, src, lines)))], [T('\n')])
        return w
    each_path(R, P, f, 'the report of a parse', want)
    R.ob('annotation as text', loc(f))


def parts_then(parts, k):
    """the parts within a part"""
    def go(i, got):
        if i == len(parts):
            return k(*got)
        p = parts[i]
        if isinstance(p, tuple):
            return go(i + 1, got + [p])
        return p(lambda *more: go(i + 1, got + list(more)))
    return go(0, [])


def of_result(R, P, f):
    ps = params(P, f)
    res = ('obj', f['ps'][0]['n'])
    src = next((v for k, v in ps.items() if 'basic_string' in k), None)
    lines, err = ps.get('bool'), ps.get('int')
    if src is None or lines is None or err is None:
        return R.lose('the parameters of PrintReport')

    def applied(say, s, its, info):
        """the step hands each element to a functor and writes what it answers"""
        x = ('elem', info['range'][1], info['ix'])
        if len(its) == 2 and its[0][0] == 'v' and its[0][1][0] == 'apply' and len(its[0][1]) == 3 and its[0][1][1][0] == 'rec':
            v = its[0][1]
            if its[1] != T('\n'):
                say.bad('the lines are not ended')
            if v[2] != x:
                return say.bad('what is written is not of the annotation at hand')
            fields = {(k[-1] if isinstance(k, tuple) else k): w for k, w in v[1][2]}
            got = next((w for k, w in fields.items() if w in (lines, TRUE, FALSE) or w[0] == 'not'), None)
            by_line = decide(s, ('T', lines))
            if got is not None and got != lines and not (by_line is not None and got == (TRUE if by_line else FALSE)):
                say.bad('lines or offsets are not as asked for')
            ix = next((w for k, w in fields.items() if w is not got), None)
            if by_line is not False and ix != ('lines', src):
                say.bad('lines are not counted in the source') if ix is None or not odd(ix) else say.unk('what lines are counted in is not understood')
            return
        e = at(x)
        want = tree([lambda k: If(('T', x), If(mk_eq(fld(e, 'name_'), ('s', 'annotation')), parts_then(
            element_text(e, lines, ('lines', src)), k), k()), k()), T('\n')])
        held(say, s, its, want)

    def want(o):
        sel = None
        for i in loops_of(o.st):
            r = i['range']
            if r is not None:
                v = read(o.st, r[1])
                if v[0] == 'sel' or r[1][0] == 'sel':
                    sel = r[1] if r[1][0] == 'sel' else v
                    i['range'] = (r[0], sel) + tuple(r[2:])
                    break
        if sel is None:
            return tree([lambda k: If(mk_eq(OK, err), k(T('OK.\n')), k()), ('over', ('none',), lambda x, ix: Val(()))], [T('\n')])
        say2 = Say(R, f, 'which annotations are said', RULE)
        _, strat, e, q, before = sel
        if strat != 'Children':
            say2.bad('the walk is not over the children of the result: %s' % strat)
        if e != at(res):
            say2.bad('the walk does not begin with the result')
        if not mentions(q, ('s', 'annotation')):
            say2.bad('what is selected is not the annotations') if not odd(q) else say2.unk('what is selected is not understood')
        return tree([lambda k: If(mk_eq(OK, err), k(T('OK.\n')), k()), ('over', sel, lambda x, ix: applied)], [T('\n')])

    each_path_result(R, P, f, want)
    for g in P.fns.values():
        if says_element(P, g) and g['file'] == f['file']:
            functor(R, P, g)


def each_path_result(R, P, f, want):
    R.seen(f)
    say = Say(R, f, 'the report of a result', RULE)
    try:
        I, outs = run(P, f)
    except Budget:
        say.unk('too many paths')
        outs = []
    for o in outs:
        if o.kind == 'throw':
            say.unk('raises')
            continue
        ss = cerr(o.st.ev)
        if len(ss) != 1:
            say.bad('nothing is written to the standard error') if not ss else say.unk('more than one standard error')
            continue
        stream = ss.pop()
        if others(o.st.ev, stream, set()):
            say.bad('part of the report is written to the standard output')
        w = want(o)
        held(say, clean(o.st), items(o.st.ev, stream), w)
    R.ob('report', '%s %s (%d paths)' % (loc(f), f['q'][:60], len(outs)), say.ok is True and bool(outs))


def functor(R, P, g):
    R.seen(g)
    say = Say(R, g, 'an annotation as text', RULE)
    this = ('obj', 'this')
    rec = P.recs.get(g.get('cls') or '', {})
    lines = fld(this, next((x['n'] for x in rec.get('fields', ()) if P.ty(x['t'])['s'].replace('const ', '') == 'bool'), 'useLineNumbers'))
    index = fld(this, next((x['n'] for x in rec.get('fields', ()) if 'vector' in P.ty(x['t'])['s']), 'linesEndIndex'))
    try:
        I, outs = run(P, g)
    except Budget:
        say.unk('too many paths')
        outs = []
    p = ('obj', g['ps'][0]['n'])
    e = at(p)
    want = tree([lambda k: If(('T', p), If(mk_eq(fld(e, 'name_'), ('s', 'annotation')), parts_then(
        element_text(e, lines, index), k), k()), k())])
    for o in outs:
        if o.kind == 'throw':
            say.unk('raises')
            continue
        v = I.val(o.st, o.val)
        if v[0] == 'strof':
            its = items(o.st.ev[:v[2]], v[1])
        else:
            t = text(v)
            if t is None:
                say.unk('what is answered is not understood: %s' % short(v))
                continue
            its = [('t', t)] if t else []
        held(say, clean(o.st), its, want)
    R.ob('annotation as text', '%s %s (%d paths)' % (loc(g), g['q'][:80], len(outs)), say.ok is True and bool(outs))

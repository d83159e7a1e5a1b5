"""C01: the C interface does what it was asked."""
import models
import refr
from absint import C, NULL, Interp, Budget, decide, fmt, flat_events, mk_eq, read, write, mentions, TRUE, FALSE
from front import loc, strip_targs
from say import Say
from seqv import describe

RULE = 'does as it was asked'
HOME = ('drafter.cc', 'drafter.h', 'options.cc', 'options.h')
PARSE, SERIALIZE, CHECK, TO = 'drafter_parse_blueprint', 'drafter_serialize', 'drafter_check_blueprint', 'drafter_parse_blueprint_to'
EINVALID = C(-2)
REQUIRE, SOURCEMAPS = 2, 4
# what is set, what reads it, and what makes options of that sort
SETTERS = (('drafter_set_name_required', 'drafter::is_name_required', 'drafter_init_parse_options'),
           ('drafter_set_skip_gen_bodies', 'drafter::is_skip_gen_bodies', 'drafter_init_parse_options'),
           ('drafter_set_skip_gen_body_schemas', 'drafter::is_skip_gen_body_schemas', 'drafter_init_parse_options'),
           ('drafter_set_sourcemaps_included', 'drafter::are_sourcemaps_included', 'drafter_init_serialize_options'),
           ('drafter_set_format', 'drafter::get_format', 'drafter_init_serialize_options'))
NOINLINE = {PARSE, SERIALIZE, 'drafter_free_result', 'refract::serialize::renderSo', 'drafter::utils::so::serialize_json',
            'drafter::utils::so::serialize_yaml'}


def bitset(I, e, b, s, ob, args):
    """a bitset is as many bits of its own"""
    m = b.rsplit('::', 1)[1]

    def bit(k):
        l = ('fld', ob, '#bit%d' % k)
        v = read(s, l)
        if v[0] == 'fld' and v[1][0] == 'ctor' and v[1][1].startswith('std::bitset'):
            a = v[1][2] if len(v[1]) > 2 else C(0)
            return C(a[1] >> k & 1) if a[0] == 'c' else v
        return v
    vs = [I.val(s, a) for a in args]
    if m in ('test', 'operator[]') and len(vs) == 1 and vs[0][0] == 'c':
        return [(s, ('V', bit(vs[0][1])))]
    if m in ('set', 'reset', 'flip') and vs and vs[0][0] == 'c':
        k = vs[0][1]
        if m == 'flip':
            v = bit(k)
            v = C(1 - v[1]) if v[0] == 'c' else ('not', v)
        else:
            v = C(0) if m == 'reset' else vs[1] if len(vs) > 1 else C(1)
        write(s, ('fld', ob, '#bit%d' % k), v)
        return [(s, ('L', ob))]
    if m == 'reset' and not vs:
        write(s, ob, ('ctor', 'std::bitset::(ctor)'))
        return [(s, ('L', ob))]
    return None


def hooks():
    H = refr.hooks(dispatch=True)
    inner = H['call']

    def call(I, e, b, s, fr, ob, args):
        if b.startswith('std::bitset::') and ob is not None:
            r = bitset(I, e, b, s, ob, args)
            if r is not None:
                return r
        if b.startswith('refract::dsd::') and ob is not None and b.rsplit('::', 1)[1] in ('push_back', 'emplace_back', 'insert'):
            return models.call(I, e, 'std::vector::' + b.rsplit('::', 1)[1], s, fr, ob, args)
        return inner(I, e, b, s, fr, ob, args)
    return dict(H, call=call)


def interp(P, own=(), **kw):
    return Interp(P, hooks=hooks(), inline=lambda fn: fn['file'].split('/')[-1] in HOME + tuple(own) or
                  fn['b'] in ('refract::FilterVisitor::empty', 'refract::FilterVisitor::elements'), noinline=NOINLINE, **kw)


def one(R, P, name):
    fs = [f for f in P.named(name) if f.get('body') is not None]
    if len(fs) != 1:
        R.lose(name)
        return None
    R.seen(fs[0])
    return fs[0]


def check(R, P):
    R.rule('Every function of the C interface is followed on all paths: an option set is the option read, and no other; a '
           'missing source is refused without touching the result; the source, the options and the flags go to the parser '
           'as given; the whole result is rendered, written by the writer of the format asked for, and handed out; and the '
           'error code is the one of the parser.')
    for setter, getter, init in SETTERS:
        option(R, P, setter, getter, init)
    context(R, P)
    for name, fn in ((PARSE, parse), (SERIALIZE, serialize), (TO, parse_to), (CHECK, check_blueprint)):
        f = one(R, P, name)
        if f is None:
            continue
        say = Say(R, f, name, RULE)
        try:
            fn(say, P, f)
        except Budget:
            say.unk('too many paths')
        R.ob('function', loc(f), say.ok is True)
    payload(R, P)
    R.floor('option', 5)
    R.floor('function', 4)


# ---- options ------------------------------------------------------------------------------------------------------

def ask(P, getter, opts, st):
    """what the getter answers of these options in this state: {value}"""
    return {o.val[1] if o.val and o.val[0] == 'V' else None if not o.val else read(o.st, o.val[1])
            for o in interp(P).run(getter, args=[opts], st=st.copy()) if o.kind == 'ret'}


def asked(P, getter, opts, st):
    """True, False or None"""
    vs = {decide(st, v) if v is not None else None for v in ask(P, getter, opts, st)}
    return vs.pop() if len(vs) == 1 else None


def option(R, P, setter, getter, init):
    fs, fg, fi = one(R, P, setter), one(R, P, getter), one(R, P, init)
    if not (fs and fg and fi):
        return
    say = Say(R, fs, setter, RULE)
    others = [(g, one(R, P, g)) for s, g, i in SETTERS if i == init and g != getter]
    none = C(0)
    for v in ask(P, fg, NULL, interp_state()):
        if v != none:
            (say.bad if v and v[0] == 'c' else say.unk)('%s answers %s without options' % (getter, fmt(v) if v else 'nothing'))
    outs = interp(P).run(fi)
    for o in outs:
        v = o.val[1] if o.kind == 'ret' and o.val and o.val[0] == 'V' else None
        if v is None or v[0] != 'new':
            say.unk('what %s answers is not understood' % init)
            continue
        for w in ask(P, fg, v, o.st):
            if w is not None and w[0] == 'c':
                if w != none:
                    say.bad('%s is set in fresh options' % getter)
            else:
                say.unk('whether %s is set in fresh options is not understood' % getter)
    opts = ('obj', 'opts')
    valued = len(fs['ps']) > 1
    st0 = interp_state()
    st0.facts[('T', opts)] = True
    before = {g: ask(P, f, opts, st0) for g, f in others if f}
    for o in interp(P).run(fs, args=[opts] + ([('obj', 'given')] if valued else []), st=st0.copy()):
        if o.kind != 'ret':
            say.bad('raises')
            continue
        got = ask(P, fg, opts, o.st)
        want = {('obj', 'given')} if valued else {C(1)}
        if got != want:
            if any(x is None or x[0] not in ('c', 'obj') and x not in ask(P, fg, opts, st0) for x in got) and got != ask(P, fg, opts, st0):
                say.unk('what %s answers afterwards is not understood' % getter)
            else:
                say.bad('%s does not answer it afterwards' % getter)
        for g, f in others:
            if f and ask(P, f, opts, o.st) != before[g]:
                say.bad('changes %s' % g)
    R.ob('option', loc(fs), say.ok is True)


def interp_state():
    from absint import St
    return St()


def context(R, P):
    """what the conversion is told to be the options is what it is asked for"""
    f = one(R, P, 'drafter::ConversionContext::options')
    if f is None:
        return
    say = Say(R, f, 'options of the conversion', RULE)
    cs = [c for c in P.by_class('drafter::ConversionContext') if c.get('ck') == 'other' and c.get('body') is not None]
    this = ('obj', 'this')
    for c in cs:
        R.seen(c)
        i = next((i for i, p in enumerate(c['ps']) if 'drafter_parse_options' in P.ty(p['t'])['s']), None)
        if i is None:
            say.bad('are not taken')
            continue
        for o in Interp(P, hooks=hooks(), inline=lambda fn: 'ConversionContext' in fn['file']).run(c):
            for o2 in Interp(P, hooks=hooks(), inline=lambda fn: 'ConversionContext' in fn['file']).run(f, st=o.st.copy()):
                v = o2.val[1] if o2.kind == 'ret' and o2.val and o2.val[0] == 'V' else None
                if v != ('obj', c['ps'][i]['n']):
                    (say.bad if v == NULL or v and v[0] == 'fld' else say.unk)('are not the ones it was made with')
    R.ob('option', loc(f), say.ok is True and bool(cs))


# ---- functions ----------------------------------------------------------------------------------------------------

def calls(o, *names):
    return [(e, l) for e, l in flat_events(o.st.ev) if e[0] == 'call' and strip_targs(e[1]) in names]


def stores(o, l):
    return [e for e, _ in flat_events(o.st.ev) if e[0] == 'store' and e[1] == l]


def ret(say, o):
    if o.kind != 'ret':
        say.bad('raises')
        return None
    if not o.val:
        say.bad('answers nothing')
        return None
    return o.val[1] if o.val[0] == 'V' else read(o.st, o.val[1])


def refused(say, o, source, out, v):
    """True when the path is the one without a source"""
    d = decide(o.st, ('T', source))
    if d is True:
        return False
    if d is None:
        say.bad('goes on whether or not there is a source')
        return True
    if v != EINVALID:
        say.bad('answers %s when there is no source' % fmt(v)[:40])
    if out is not None and stores(o, ('at', out)):
        say.bad('touches the result when there is no source')
    if calls(o, PARSE, 'snowcrash::parse'):
        say.bad('parses without a source')
    return True


def is_out(v, name, ix=None):
    """what the call left behind in its argument"""
    return v is not None and v[0] == 'out' and v[1][0] == 'call' and v[1][1] == name and (ix is None or v[2] == ix)


def parse(say, P, f):
    source, out, opts = [('obj', p['n']) for p in f['ps']]
    req = [g for g in P.named('drafter::is_name_required') if g.get('body') is not None]
    for o in interp(P).run(f):
        v = ret(say, o)
        if v is None or refused(say, o, source, out, v):
            continue
        ps = calls(o, 'snowcrash::parse')
        if len(ps) != 1 or ps[0][1]:
            (say.bad if not ps else say.unk)('the source is parsed %d times' % len(ps))
            continue
        args = ps[0][0][3]
        if args[0] != source:
            (say.unk if args[0][0] != 's' else say.bad)('what is parsed is %s' % fmt(args[0])[:60])
        if args[1][0] != 'c':
            say.unk('the flags of the parser are %s' % fmt(args[1])[:60])
        else:
            want = asked(P, req[0], opts, o.st) if req else None
            n = args[1][1]
            if want is None:
                say.bad('whether a name is required is not looked at')
            elif bool(n & REQUIRE) != want:
                say.bad('a name is %srequired although it was %sasked for' % (('', 'not ') if n & REQUIRE else ('not ', '')))
            if not n & SOURCEMAPS:
                say.bad('source maps are not exported')
            if n & ~(REQUIRE | SOURCEMAPS):
                say.bad('other flags of the parser are set')
        term = ps[0][0][4]
        ws = calls(o, 'drafter::WrapRefract', 'WrapRefract')
        if len(ws) != 1:
            (say.bad if not ws else say.unk)('the result is made %d times' % len(ws))
            continue
        w = ws[0][0]
        seq = [e for e, _ in flat_events(o.st.ev)]
        if seq.index(w) < seq.index(ps[0][0]):
            say.bad('the result is made before the source is parsed')
        ctx = [x for x in w[3] if x[0] == 'ctor' and 'ConversionContext' in x[1]]
        if len(ctx) != 1:
            say.unk('the context of the conversion is not understood')
        else:
            a = ctx[0][2:]
            if len(a) < 2 or a[1] != opts:
                say.bad('the options are not handed to the conversion')
            if not a or a[0] != source:
                say.bad('the conversion is not given the source')
            if len(a) > 2 and a[2] != C(0):
                say.bad('the conversion is asked to expand')
        st = stores(o, ('at', out))
        d = decide(o.st, ('T', out))
        if d is False and st:
            say.bad('a result is written where none is wanted')
        elif d is None:
            say.bad('the result is handed out without looking whether it is wanted' if st else 'the result is not handed out')
        elif d and (not st or st[-1][2] != w[4]):
            (say.bad if not st or st[-1][2] == NULL else say.unk)('the result is not handed out')
        if not (v[0] == 'fld' and v[2] == 'code' and v[1][0] == 'fld' and v[1][2] == 'error' and v[1][1][0] == 'fld' and v[1][1][2] == 'report'):
            (say.bad if v[0] == 'c' else say.unk)('answers %s' % fmt(v)[-60:])


def serialize(say, P, f):
    res, opts = [('obj', p['n']) for p in f['ps']]
    gf = [g for g in P.named('drafter::get_format') if g.get('body') is not None]
    gs = [g for g in P.named('drafter::are_sourcemaps_included') if g.get('body') is not None]
    if not gf or not gs:
        return
    met = set()
    for o in interp(P).run(f):
        v = ret(say, o)
        if v is None:
            continue
        d = decide(o.st, ('T', res))
        if d is not True:
            if d is None:
                say.bad('goes on whether or not there is a result')
            elif v != NULL:
                say.bad('answers %s without a result' % fmt(v)[:40])
            continue
        fm = set()
        for x in ask(P, gf[0], opts, o.st):
            for n, k in ((0, 'yaml'), (1, 'json')):
                y = True if x == C(n) else False if x is None or x[0] == 'c' else decide(o.st, mk_eq(x, C(n)))
                if y is not False:
                    fm.add(k if y else '?' + k)
        ws = calls(o, 'drafter::utils::so::serialize_json', 'drafter::utils::so::serialize_yaml')
        if v == NULL:
            if fm:
                say.bad('answers nothing for %s' % ' or '.join(sorted(x.strip('?') for x in fm)))
            continue
        if len(ws) != 1:
            say.bad('writes %d times' % len(ws))
            continue
        w = ws[0][0]
        k = w[1].rsplit('_', 1)[1]
        if fm != {k}:
            say.bad('writes %s when asked for %s' % (k, ' or '.join(sorted(x.strip('?') for x in fm)) or 'neither format'))
        met.add(k)
        stream, so = w[3][0], w[3][1]
        if stream[0] != 'ctor' or len(stream) > 2:
            say.unk('writes to %s' % fmt(stream)[:60])
        if any(e[0] == 'out' for e, _ in flat_events(o.st.ev)):
            say.bad('writes something else, too')
        if not (so[0] == 'call' and so[1] == 'refract::serialize::renderSo'):
            say.unk('writes %s' % fmt(so)[:60])
        else:
            a = so[3:]
            if a[0] != ('at', res):
                (say.unk if a[0][0] != 'at' else say.bad)('renders %s' % fmt(a[0])[:60])
            want = asked(P, gs[0], opts, o.st)
            got = decide(o.st, a[1]) if a[1][0] != 'c' else bool(a[1][1])
            if want is None and got is None and a[1] in ask(P, gs[0], opts, o.st):
                pass
            elif want is None or got != want:
                (say.unk if got is None else say.bad)('source maps are %srendered, whether or not they are asked for' % ('' if got else 'not ')
                        if want is None else 'source maps are %srendered' % ('not ' if want else ''))
        # the answer is a copy of all of the text
        if v[0] == 'call' and v[1] == 'strdup' and v[3][0] == 'it':
            t = read(o.st, v[3][1])
            if v[3][2] != C(0):
                say.bad('only part of the text is handed out')
            if t[0] == 'strof' and w in o.st.ev and len(w) > 7 and w[7] and w[7][0] == ('L', t[1]):
                if o.st.ev.index(w) >= t[2]:
                    say.bad('the text is handed out before it is written')
            elif not (t[0] == 'call' and t[1].endswith('::str') and is_out(t[2], w[4][1])):
                (say.bad if t[0] == 's' else say.unk)('hands out %s' % fmt(t)[:60])
        else:
            say.unk('answers %s' % fmt(v)[:60])
    for k in ('json', 'yaml'):
        if k not in met:
            say.bad('nothing is written as %s' % k)


def parse_to(say, P, f):
    source, out, popts, sopts = [('obj', p['n']) for p in f['ps']]
    for o in interp(P).run(f):
        v = ret(say, o)
        if v is None or refused(say, o, source, out, v):
            continue
        p = parsed(say, o, source, popts, v)
        if p is None:
            continue
        result, there = p
        ss = calls(o, SERIALIZE)
        st = stores(o, ('at', out))
        if there is False:
            if ss:
                say.bad('renders no result')
            continue
        d = decide(o.st, ('T', out))
        if d is False:
            if st:
                say.bad('writes where nothing is wanted')
            continue
        if d is None:
            say.bad('the text is written without looking whether it is wanted' if st else 'the text is not handed out')
            continue
        if len(ss) != 1 or ss[0][1]:
            say.bad('renders %d times' % len(ss))
            continue
        a = ss[0][0][3]
        if a[0] != result:
            say.bad('renders %s' % fmt(a[0])[:60])
        if a[1] != sopts:
            say.bad('renders with options other than those given')
        if not st or st[-1][2] != ss[0][0][4]:
            (say.bad if not st or st[-1][2] == NULL else say.unk)('the text is not handed out')


def parsed(say, o, source, opts, v, want=True):
    ps = calls(o, PARSE)
    if len(ps) != 1 or ps[0][1]:
        say.bad('parses %d times' % len(ps))
        return None
    t, a = ps[0][0][4], ps[0][0][3]
    if a[0] != source:
        (say.bad if a[0][0] == 's' else say.unk)('parses %s' % fmt(a[0])[:60])
    if a[2] != opts:
        say.bad('parses with options other than those given')
    if v != t:
        (say.bad if v[0] == 'c' else say.unk)('answers %s and not the code of the parser' % fmt(v)[:40])
    if a[1] == NULL:
        return (None, False)
    result = ('out', t, 1)
    return (result, decide(o.st, ('T', result)))


def check_blueprint(say, P, f):
    source, res, opts = [('obj', p['n']) for p in f['ps']]
    some = False
    for o in interp(P).run(f):
        v = ret(say, o)
        if v is None or refused(say, o, source, res, v):
            continue
        p = parsed(say, o, source, opts, v)
        if p is None:
            continue
        result, there = p
        st = stores(o, ('at', res))
        wanted = decide(o.st, ('T', res))
        if there is False:
            if result is None and wanted is not False:
                say.bad('no result is made when one is wanted')
            if st and st[-1][2] != NULL:
                say.bad('hands out %s' % fmt(st[-1][2])[:60])
            continue
        if wanted is not True:
            if st:
                say.bad('writes where nothing is wanted')
            continue
        if not st:
            say.bad('nothing is handed out')
            continue
        fs = [e for e, _ in flat_events(o.st.ev) if e[0] == 'call' and strip_targs(e[1]).startswith('refract::FilterVisitor::(ctor)')]
        its = [e for e, _ in flat_events(o.st.ev) if e[0] == 'call' and e[1].startswith('refract::Iterate<') and e[1].endswith('::operator()')]
        if len(fs) != 1 or len(its) != 1:
            say.unk('how annotations are found is not understood')
            continue
        q = fs[0][3][0] if fs[0][3] else None
        if not (q and q[0] == 'ctor' and q[1].startswith('refract::query::Element') and len(q) == 3):
            say.unk('what is looked for is not understood')
        elif q[2] != ('s', 'annotation'):
            (say.bad if q[2][0] in ('s', 'gv') and 'Annotation' not in str(q[2]) else say.unk)('%s are looked for' % fmt(q[2])[:40])
        if its[0][3][0] != ('at', result):
            say.bad('what is looked through is not the result')
        if '<refract::Children' not in its[0][1]:
            say.bad('not only the children of the result are looked through')
        x = st[-1][2]
        em = {none_in(o.st, n) for n in {z for a in o.st.facts for z in sizes(a)}}
        if x == NULL:
            if True not in em:
                say.bad('hands out nothing although there may be annotations')
            continue
        if False not in em:
            say.bad('hands out a result although there may be no annotations')
        made = [e for e, _ in flat_events(o.st.ev) if e[0] == 'call' and x[0] == 'new' and e[2] == ('addr', x[1]) and e[1].endswith('(ctor)')]
        if x[0] == 'new' and not made:
            say.unk('what is handed out is not understood')
            continue
        if x[0] != 'new':
            (say.bad if mentions(x, result) else say.unk)('hands out %s' % fmt(x)[:60])
            continue
        cloned(say, o, made[0][3][0] if made[0][3] else None, fs[0][2])
        nm = [e[3][0] for e, _ in flat_events(o.st.ev) if e[0] == 'call' and e[1].endswith('::element') and e[2] == ('addr', x[1]) and e[3]]
        if not nm or 'ParseResult' not in str(nm[-1]) and nm[-1] != ('s', 'parseResult'):
            (say.bad if not nm or nm[-1][0] == 's' else say.unk)('what is handed out is no parse result')
        some = True
    if say.ok is True and not some:
        say.bad('annotations are never handed out')


def sizes(t):
    """numbers of elements selected that are looked at"""
    if isinstance(t, tuple) and t:
        if t[0] == 'size' and t[1][0] == 'fld' and 'FilterVisitor' in str(t[1]):
            yield t
        else:
            for x in t:
                yield from sizes(x)


def none_in(st, n):
    """True: the path knows that there are none; False: that there are some"""
    if decide(st, ('T', n)) is False or decide(st, mk_eq(n, C(0))) is True or st.facts.get(('lt', C(0), n)) is False:
        return True
    if decide(st, ('T', n)) is True or decide(st, mk_eq(n, C(0))) is False or st.facts.get(('lt', C(0), n)) is True:
        return False
    return None


def cloned(say, o, term, filt):
    segs = describe(o.st, term) if term else None
    if segs is not None and not segs:
        say.bad('hands out no annotations')
        return
    cut = [e for e, _ in flat_events(o.st.ev) if e[0] in ('erase', 'pop', 'clear', 'resize') or
           e[0] == 'call' and e[1] == 'refract::dsd::Array::erase']
    if cut and (not segs or len(segs) != 1):
        say.bad('annotations are removed from what is handed out')
        return
    if not segs or len(segs) != 1 or segs[0][0] != 'map' or not segs[0][1]['range']:
        say.unk('what is handed out is made in a way that is not understood')
        return
    i = segs[0][1]
    r = i['range']
    src = r[1]
    if not (src[0] == 'fld' and ('addr', src[1]) == filt):
        say.unk('what is handed out comes from %s' % fmt(src)[:40])
        return
    if r[0] == 'rrange' or r[2] != C(0) or r[3][0] != 'size':
        (say.unk if r[0] == 'rrange' else say.bad)('not all annotations are handed out in order')
    es = [('at', ('elem', x, i['ix'])) for x in (src, read(o.st, src), read(i['prestore'], src))]
    for kd, facts, vals in segs[0][2]:
        if kd in ('brk', 'ret') or len(vals) != 1:
            say.bad('an annotation is left out' if len(vals) < 2 else 'an annotation is there twice')
            continue
        v = vals[0]
        if v[0] == 'clone' and v[1] in es:
            fl = v[2]
        elif v[0] == 'apply' and v[1][0] == 'call' and v[1][1] == 'std::bind' and v[1][3][0] == 'fn' and v[1][3][2].endswith('::clone') \
                and any(('at', z) in es for z in v[2:]):
            fl = v[1][5]
        else:
            (say.bad if ('at', v) in es else say.unk)('an annotation is handed out as %s' % fmt(v)[:60])
            continue
        if fl != C(15):
            (say.bad if fl[0] == 'c' else say.unk)('an annotation is handed out in parts')


# ---- what is asked of the conversion ------------------------------------------------------------------------------

GEN = (('drafter::is_skip_gen_bodies', 'generateValueAsset', 'body', 'MessageBody'),
       ('drafter::is_skip_gen_body_schemas', 'generateSchemaAsset', 'schema', 'MessageBodySchema'))


def payload(R, P):
    callers = {}
    for f in P.fns.values():
        if f.get('body') is None or not f['file'].startswith('drafter/src/'):
            continue
        for getter, gen, fld, key in GEN:
            if f['b'].split('::')[-1] == gen:
                callers.setdefault(gen, f)
    fs = [f for f in P.fns.values() if f.get('body') is not None and f['b'].split('::')[-1] == 'PayloadToRefract']
    if len(fs) != 1 or len(callers) != 2:
        R.lose('PayloadToRefract')
        return
    f = fs[0]
    R.seen(f)
    says = {g[1]: Say(R, f, g[1], RULE) for g in GEN}
    names = {callers[g[1]]['b']: g for g in GEN}
    try:
        outs = Interp(P, hooks=hooks(), inline=lambda fn: fn['file'] == f['file'] and fn['b'] not in names and False, max_states=6000).run(f)
    except Budget:
        for s in says.values():
            s.unk('too many paths')
        outs = []
    pl = ('obj', f['ps'][0]['n'])
    for o in outs:
        if o.kind != 'ret':
            continue
        skip = {}
        for a, b in o.st.facts.items():
            if a[0] == 'T' and a[1][0] == 'call' and a[1][1] in (GEN[0][0], GEN[1][0]):
                skip[a[1][1]] = b
        expanded = [(a[1], b) for a, b in o.st.facts.items() if a[0] == 'T' and a[1][0] == 'call' and a[1][1].endswith('ExpandRefract')
                    and not any(x[0] == 'clone' for x in a[1][3:])]
        if decide(o.st, ('T', ('call', 'drafter::NodeInfo::isNull', pl))) is True:
            continue
        for getter, gen, fld, key in GEN:
            say = says[gen]
            src = ('size', ('fld', ('at', ('fld', pl, 'node')), fld))
            given = decide(o.st, ('T', src))
            cs = calls(o, callers[gen]['b'])
            es = [e for e, _ in flat_events(o.st.ev) if e[0] == 'call' and e[1].split('::')[-1] == 'make_asset_element'
                  and any(x == src[1] for x in e[3])]
            if given is None:
                say.bad('the %s of the payload is not looked at' % fld) if not es else say.unk('the %s is used unseen' % fld)
                continue
            if given:
                if cs:
                    say.bad('a %s is generated although there is one' % fld)
                if len(es) != 1:
                    say.bad('the %s is there %d times' % (fld, len(es)))
                elif not any(str(x).endswith("@%s')" % key) for x in es[0][3]):
                    say.bad('the %s is not marked as one' % fld)
                continue
            if es:
                say.bad('an empty %s is written' % fld)
            if cs:
                if skip.get(getter) is not False:
                    say.bad('a %s is generated although that is to be skipped' % fld if skip.get(getter) else
                            'a %s is generated without asking whether that is to be skipped' % fld)
                if len(cs) != 1:
                    say.bad('%d of them are generated' % len(cs))
            else:
                there = [b for a, b in expanded]
                if skip.get(getter) is not True and any(there) and True in there:
                    say.bad('no %s is generated although that is not to be skipped' % fld)
    for g in GEN:
        R.ob('generated', loc(f), says[g[1]].ok is True and bool(outs))

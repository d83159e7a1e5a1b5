"""C02: the command line does what it was asked."""
import c01
import refr
from absint import C, NULL, Interp, Budget, decide, fmt, flat_events, mk_eq, read
from c01 import calls, ret, is_out
from front import loc, strip_targs, walk
from say import Say

RULE = 'does as the command line says'
# option, letter, and the part of the configuration that holds it
OPTIONS = {'output': ('o', 'output', 'get'), 'format': ('f', 'format', 'get'), 'sourcemap': ('s', 'sourceMap', 'exist'),
           'help': ('h', None, None), 'version': ('v', None, None), 'validate': ('l', 'validate', 'exist'),
           'use-line-num': ('u', 'lineNumbers', 'exist'), 'enable-log': ('L', 'enableLog', 'exist')}
FILES = ('main.cc', 'config.cc', 'stream.h')
CAPI = ('drafter_init_serialize_options', 'drafter_set_sourcemaps_included', 'drafter_set_format', 'drafter_init_parse_options')
STD = 'std_io'


def interp(P, noinline=(), **kw):
    H = refr.hooks(dispatch=True)
    inner = H['call']

    def call(I, e, b, s, fr, ob, args):
        if b in ('exit', 'std::exit', 'abort', '_exit', 'quick_exit') and ob is None:
            I.exits.append((s.copy(), I.val(s, args[0]) if args else C(1)))
            return []
        return inner(I, e, b, s, fr, ob, args)
    I = Interp(P, hooks=dict(H, call=call), inline=lambda fn: fn['file'].split('/')[-1] in FILES and fn['file'].startswith('drafter/src/'),
               noinline=set(noinline), **kw)
    I.exits = []
    return I


def one(R, P, name):
    fs = [f for f in P.fns.values() if f['b'] == name and f.get('body') is not None]
    if not fs:
        R.lose(name)
        return None
    for f in fs:
        R.seen(f)
    return fs[0]


def check(R, P):
    R.rule('The functions of the command line are followed on all paths: every option sets the part of the configuration it '
           'stands for; the whole input is parsed; the result is written in the format asked for, with source maps where asked '
           'for, unless only validation is; the report goes with the source and the code; the code is the status; and no output '
           'file is opened when none is to be written.')
    for name, fn in (('PrepareCommanLineParser', prepare), ('ParseCommadLineOptions', parse), ('ValidateParsedCommandLine', validate),
                     ('ProcessRefract', process), ('main', main), ('CreateStreamFromName', streams)):
        f = one(R, P, name)
        if f is None:
            continue
        say = Say(R, f, name, RULE)
        try:
            fn(say, P, f)
        except Budget:
            say.unk('too many paths')
        R.ob('function', loc(f), say.ok is True)
    R.floor('function', 6)


def text(P, v):
    """the text a value stands for"""
    if v[0] == 's':
        return v[1]
    if v[0] == 'gv' and v[1] in P.gvars and P.gvars[v[1]].get('e'):
        ss = [x['v'] for x in walk(P.gvars[v[1]]['e']) if x.get('k') == 'str']
        if len(ss) == 1:
            return ss[0]
    return None


def prepare(say, P, f):
    for o in interp(P).run(f):
        got = {}
        for e, l in flat_events(o.st.ev):
            if e[0] != 'call' or strip_targs(e[1]) != 'cmdline::parser::add':
                continue
            a = e[3]
            n = text(P, a[0])
            if n is None or l:
                say.unk('an option is added whose name is not understood')
                continue
            if n in got:
                say.bad('"%s" is added twice' % n)
            got[n] = a
        for n, (letter, part, how) in OPTIONS.items():
            a = got.get(n)
            if a is None:
                say.bad('"%s" is not taken' % n)
                continue
            if len(a) > 1 and a[1] != C(ord(letter)):
                (say.bad if a[1][0] == 'c' else say.unk)('"%s" goes by another letter' % n)
            if how == 'get':
                if len(a) > 3 and a[3] != C(0):
                    (say.bad if a[3][0] == 'c' else say.unk)('"%s" must be given' % n)
                d = text(P, a[4]) if len(a) > 4 else None
                want = 'yaml' if n == 'format' else ''
                if d is not None and d != want:
                    say.bad('"%s" is "%s" where it is not given' % (n, d))


def option_of(P, v):
    """('exist' | 'get', name of the option) of a value asked from the parser"""
    if v and v[0] == 'at':
        v = v[1]
    if v and v[0] == 'call' and v[1] in ('cmdline::parser::exist', 'cmdline::parser::get') and len(v) > 3:
        return v[1].rsplit('::', 1)[1], text(P, v[3])
    return None, None


def parse(say, P, f):
    conf = next((('obj', p['n']) for p in f['ps'] if 'Config' in P.ty(p['t'])['s']), None)
    args = [('obj', p['n']) for p in f['ps'][:2]]
    fmts = {n: v for n, v in (P.enums.get('drafter::SerializeFormat') or {}).get('cs', ())}
    I = interp(P, noinline={'PrepareCommanLineParser', 'ValidateParsedCommandLine'})
    outs = I.run(f)
    if not outs:
        say.bad('does not come back')
    for o in outs:
        if o.kind != 'ret':
            say.bad('raises')
            continue
        pc = calls(o, 'cmdline::parser::parse_check')
        if len(pc) != 1:
            say.unk('the arguments are parsed %d times' % len(pc))
        elif list(pc[0][0][3][:2]) != args:
            say.bad('other arguments are parsed')
        if len(calls(o, 'ValidateParsedCommandLine')) != 1:
            say.bad('what is given is not checked')
        for n, (letter, part, how) in OPTIONS.items():
            if part is None or part == 'format':
                continue
            v = read(o.st, ('fld', conf, part))
            if v == ('fld', conf, part):
                say.bad('%s is not set' % part)
                continue
            h, name = option_of(P, v)
            if h is None:
                d = [b for a, b in o.st.facts.items() if a[0] == 'T' and option_of(P, a[1]) == (how, n)]
                if v[0] == 'c' and d:
                    if bool(v[1]) != d[0]:
                        say.bad('%s is not what "%s" says' % (part, n))
                else:
                    (say.bad if v[0] in ('c', 's') else say.unk)('%s is %s' % (part, fmt(v)[:50]))
            elif name != n or h != how:
                (say.unk if name is None else say.bad)('%s is what "%s" says' % (part, name))
        v = read(o.st, ('fld', conf, 'format'))
        js = None
        for a, b in o.st.facts.items():
            if a[0] == 'eq':
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if option_of(P, x) == ('get', 'format') and text(P, y) in ('json', 'yaml'):
                        js = b if text(P, y) == 'json' else not b
        if v[0] != 'c':
            say.bad('the format is not set') if v == ('fld', conf, 'format') else say.unk('the format is %s' % fmt(v)[:50])
        elif js is None:
            say.bad('the format is set without looking at "format"')
        elif v[1] != fmts.get('JSONFormat' if js else 'YAMLFormat'):
            say.bad('the format is not what "format" says')
        # the input
        v = read(o.st, ('fld', conf, 'input'))
        some = [x for x in o.st.facts.items() if 'cmdline::parser::rest' in str(x[0]) and 'size' in str(x[0])]
        fits = [n for n in range(4) if all(holds(a, n) in (None, b) for a, b in some)]
        there = bool(fits[-1:] != [0])
        if any(holds(a, 1) is None for a, b in some):
            say.unk('how many files there are is not understood')
        elif not fits:
            continue
        elif fits[0] == 0 and there:
            say.bad('whether there is an input file is not looked at')
        elif there:
            if not (v[0] == 'elem' and 'cmdline::parser::rest' in str(v[1]) and v[2] == C(0)):
                (say.bad if v == ('fld', conf, 'input') else say.unk)('the input is not the file that is given')
        elif v != ('fld', conf, 'input') and v != ('s', ''):
            say.bad('an input is set where none is given')


def holds(a, n):
    """whether a fact about the number of files is true for n of them"""
    val = lambda t: t[1] if t[0] == 'c' else n if t[0] == 'size' else None
    if a[0] == 'T' and a[1][0] == 'size':
        return n != 0
    if a[0] in ('lt', 'eq') and len(a) > 2:
        x, y = val(a[1]), val(a[2])
        if isinstance(x, int) and isinstance(y, int):
            return x < y if a[0] == 'lt' else x == y
    return None


def sub(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
        for x in t:
            yield from sub(x)


def validate(say, P, f):
    I = interp(P)
    outs = I.run(f)

    def many(st):
        for a, b in st.facts.items():
            if 'cmdline::parser::rest' in str(a):
                if a[0] == 'lt' and a[1] == C(1) and a[2][0] == 'size':
                    return b
                if a[0] == 'lt' and a[2] == C(2) and a[1][0] == 'size':
                    return not b
        return None

    def version(st):
        for a, b in st.facts.items():
            if a[0] == 'T' and option_of(P, a[1]) == ('exist', 'version'):
                return b
        return None
    for o in outs:
        if o.kind != 'ret':
            say.bad('raises')
        if many(o.st):
            say.bad('goes on with more than one input file')
        elif many(o.st) is None:
            say.unk('how many files are given is not understood')
        if version(o.st) is not False:
            say.bad('goes on although only the version is asked for' if version(o.st) else '"version" is not looked at')
    for st, code in I.exits:
        if many(st):
            if code == C(0):
                say.bad('succeeds with more than one input file')
        elif version(st):
            if code != C(0):
                say.bad('fails where the version is asked for')
            es = [e for e, _ in flat_events(st.ev) if e[0] == 'out' and 'cout' in str(e[1])]
            if not any('drafter_version_string' in str(e[2]) for e in es):
                say.bad('does not say which version')
        else:
            say.bad('ends although nothing is wrong')


def process(say, P, f):
    config = next((('obj', p['n']) for p in f['ps'] if 'Config' in P.ty(p['t'])['s']), None)
    ins = next((('obj', p['n']) for p in f['ps'] if 'istream' in P.ty(p['t'])['s']), None)
    outp = next((('obj', p['n']) for p in f['ps'] if 'ostream' in P.ty(p['t'])['s']), None)
    fmts = {n: v for n, v in (P.enums.get('drafter::SerializeFormat') or {}).get('cs', ())}
    if None in (config, ins, outp):
        say.unk('the parameters are not understood')
        return
    cf = lambda n: ('fld', config, n)
    for o in interp(P, max_states=2000).run(f):
        v = ret(say, o)
        if v is None:
            continue
        st = o.st
        evs = [e for e, _ in flat_events(st.ev)]
        # logging
        log = [e for e in evs if e[0] == 'call' and 'trivial_log' in e[1] and e[1].endswith('::enable')]
        d = decide(st, ('T', cf('enableLog')))
        if bool(log) != d:
            say.bad('logs %s' % ('without being asked to' if log else 'not although it is asked to') if d is not None else
                    'does not look whether it is to log')
        # options of the rendering
        made = [e[4] for e in evs if e[0] == 'call' and e[1] == 'drafter_init_serialize_options']
        sm = [e for e in evs if e[0] == 'call' and e[1] == 'drafter_set_sourcemaps_included']
        fm = [e for e in evs if e[0] == 'call' and e[1] == 'drafter_set_format']
        d = decide(st, ('T', cf('sourceMap')))
        if d is None or bool(sm) != d:
            say.bad('source maps are %sasked for whatever the command line says' % ('' if sm else 'not ') if d is None else
                    'source maps are %sasked for' % ('' if sm else 'not '))
        js = decide(st, mk_eq(cf('format'), C(fmts.get('JSONFormat', 0))))
        got = fm[-1][3][1] if fm else C(0)
        if js is None:
            if got == cf('format') or got[0] != 'c':
                say.unk('the format is %s' % fmt(got)[:40])
            else:
                say.bad('the format is %s whatever the command line says' % fmt(got))
        elif got != C(1 if js else 0):
            (say.bad if got[0] == 'c' else say.unk)('the format is not the one the command line says')
        if any(e[3][0] not in made for e in sm + fm):
            say.unk('which options are set is not understood')
        # the input
        ps = [e for e in evs if e[0] == 'call' and e[1] in ('drafter_parse_blueprint', 'drafter_check_blueprint')]
        if len(ps) != 1 or ps[0][1] != 'drafter_parse_blueprint':
            say.unk('the input is parsed in a way that is not understood')
            continue
        src = contents(st, ps[0][3][0])
        if not whole(say, st, evs, src, ins, 'what is parsed'):
            pass
        popts = ps[0][3][2]
        if popts != NULL and not (popts[0] == 'call' and popts[1] == 'drafter_init_parse_options'):
            (say.unk)('the options of the parser are %s' % fmt(popts)[:40])
        for e in evs:
            if e[0] == 'call' and e[1] in ('drafter_set_name_required', 'drafter_set_skip_gen_bodies', 'drafter_set_skip_gen_body_schemas'):
                say.bad('an option of the parser is set that was not asked for')
        term = ps[0][4]
        result = ('out', term, 1)
        there = decide(st, ('T', result))
        rs = [e for e in evs if e[0] == 'call' and e[1] == 'drafter_serialize']
        rep = [e for e in evs if e[0] == 'call' and e[1] == 'PrintReport']
        outs = [e for e in evs if e[0] == 'out' and at_param(e[1], outp)]
        if there is None:
            say.bad('goes on whether or not there is a result')
            continue
        if there is False:
            if not (v[0] == 'c' and v[1] != 0 or v == term):
                say.bad('answers %s without a result' % fmt(v)[:40])
            if rs or rep or outs:
                say.bad('writes something without a result')
            continue
        if v != term:
            (say.bad if v[0] == 'c' else say.unk)('answers %s and not the code of the parser' % fmt(v)[:40])
        # the report
        if len(rep) != 1:
            say.bad('reports %d times' % len(rep))
        else:
            a = rep[0][3]
            if a[0] != result:
                (say.bad if a[0] == NULL else say.unk)('reports on %s' % fmt(a[0])[:40])
            whole(say, st, evs, a[1], ins, 'what the report refers to')
            if len(a) > 2 and a[2] != cf('lineNumbers'):
                b = decide(st, ('T', cf('lineNumbers')))
                if a[2][0] != 'c' or b is None or bool(a[2][1]) != b:
                    (say.bad if a[2][0] in ('c', 'fld') else say.unk)('whether lines are reported is not what the command line says')
            if len(a) > 3 and a[3] != term:
                (say.bad if a[3][0] == 'c' else say.unk)('reports another code')
        # what is written
        d = decide(st, ('T', cf('validate')))
        if d is None:
            say.bad('writes %s when asked to validate or not' % ('the result' if outs else 'nothing'))
        elif d:
            if outs:
                say.bad('writes the result although only validation is asked for')
        else:
            if len(rs) != 1:
                say.bad('renders %d times' % len(rs))
                continue
            a = rs[0][3]
            if a[0] != result:
                say.unk('renders %s' % fmt(a[0])[:40])
            if a[1] not in made:
                (say.bad if a[1] == NULL else say.unk)('renders with other options')
            vals = [e[2] for e in outs]
            if decide(st, ('T', rs[0][4])) is False:
                if any(x == rs[0][4] for x in vals):
                    say.bad('writes nothing as if it were a text')
                continue
            n = sum(1 for x in vals if x == rs[0][4])
            if n != 1:
                (say.bad if n or not vals else say.unk)('writes the text %d times' % n)
            else:
                i = vals.index(rs[0][4])
                if any(x != ('s', '') for x in vals[:i]):
                    say.bad('writes something before the text')
                if any(e[0] == 'call' and e[2] and at_param(e[2], outp) and e[1].startswith('std::') and e[1].rsplit('::', 1)[1] in ('put', 'write', 'print') for e in evs):
                    say.unk('what is written besides is not understood')
                    continue
                rest = ''.join(x[1] if x[0] == 's' else '\n' if x[0] == 'c' and x[1] == 10 or 'endl' in str(x) else '' if 'flush' in str(x) else '?' for x in vals[i + 1:])
                if rest != '\n':
                    (say.unk if '?' in rest else say.bad)('writes %r after the text' % rest)


def at_param(l, p):
    """the stream a parameter holds"""
    while l and l[0] in ('at', 'addr', 'fld', 'own'):
        l = l[1]
    return l == p


def contents(st, v):
    if v[0] == 'it' and v[2] == C(0):
        return read(st, v[1])
    return v


def whole(say, st, evs, v, ins, what):
    """v is all that the input holds"""
    if v[0] != 'strof':
        (say.bad if v[0] == 's' else say.unk)('%s is %s' % (what, fmt(v)[:50]))
        return False
    fed = [e for e in evs if e[0] == 'out' and e[2][0] == 'call' and e[2][1].endswith('::rdbuf') and at_param(e[2][2], ins)]
    other = [e for e in evs if e[0] == 'out' and fed and e[1] == fed[0][1] and e not in fed]
    if len(fed) != 1 or fed[0][1] != v[1]:
        say.unk('%s is not understood to be the input' % what)
        return False
    if other:
        say.bad('%s is more than the input' % what)
        return False
    return True


def main(say, P, f):
    argc, argv = [('obj', p['n']) for p in f['ps'][:2]]
    for o in interp(P, noinline={'ParseCommadLineOptions', 'ProcessRefract', 'CreateStreamFromName'}).run(f):
        v = ret(say, o)
        if v is None:
            continue
        evs = [e for e, _ in flat_events(o.st.ev)]
        pc = [e for e in evs if e[0] == 'call' and e[1] == 'ParseCommadLineOptions']
        if len(pc) != 1 or list(pc[0][3][:2]) != [argc, argv]:
            say.bad('the arguments are not looked at as they are')
            continue
        term = pc[0][4]
        cfg = ('out', term, 2)
        sn = [e for e in evs if e[0] == 'call' and strip_targs(e[1]) == 'CreateStreamFromName']
        pr = [e for e in evs if e[0] == 'call' and e[1] == 'ProcessRefract']
        if len(pr) != 1 or len(sn) != 2:
            say.unk('the streams are made in a way that is not understood')
            continue
        if v != pr[0][4]:
            (say.bad if v[0] == 'c' else say.unk)('the status is %s' % fmt(v)[:40])
        if pr[0][3][0] != cfg:
            say.bad('the configuration is not the one of the command line')
        i, u = pr[0][3][1:3]
        names = {e[4]: e[3][0] for e in sn}
        if names.get(i) != ('fld', cfg, 'input'):
            (say.bad if names.get(i) else say.unk)('what is read is not the input')
        d = decide(o.st, ('T', ('fld', cfg, 'validate')))
        n = names.get(u)
        if n is None:
            say.unk('what is written to is not understood')
        elif n == ('fld', cfg, 'output'):
            if d is not False:
                say.bad('the output file is opened, and emptied, where only validation is asked for')
        elif n == ('s', ''):
            if d is not True:
                say.bad('the output file is not written')
        else:
            (say.bad if n[0] == 'fld' else say.unk)('what is written to is %s' % fmt(n)[:40])


def streams(say, P, f0):
    fs = [f for f in P.fns.values() if f['b'] == 'CreateStreamFromName' and f.get('body') is not None]
    standard(say, P)
    for f in fs:
        kind = 'istream' if 'istream' in P.ty(f['ret'])['s'] else 'ostream'
        name = ('obj', f['ps'][0]['n'])
        I = interp(P)
        outs = I.run(f)
        for st, code in I.exits:
            if code == C(0):
                say.bad('a file that cannot be opened is no failure')
            if not any(e[0] == 'out' and 'cerr' in str(e[1]) for e, _ in flat_events(st.ev)):
                say.bad('does not say that a file cannot be opened')
            if opened(st) is not False:
                say.bad('fails although the file is open')
        for o in outs:
            v = ret(say, o)
            if v is None:
                continue
            empty = c01.none_in(o.st, ('size', name))
            for a, b in o.st.facts.items():
                if a[0] == 'eq' and ('s', '') in a[1:] and name in a[1:]:
                    empty = b
            if empty is None:
                say.bad('does not look whether a name is given')
                continue
            if v[0] != 'new':
                (say.bad if v == NULL else say.unk)('answers %s' % fmt(v)[:40])
                continue
            made = [e for e, _ in flat_events(o.st.ev) if e[0] == 'new' and e[1] == v]
            t = made[0][2] if made else ''
            if empty:
                if 'fstream' in t or kind not in t:
                    say.bad('without a name, %s is made' % t[:60])
                continue
            if ('ifstream' if kind == 'istream' else 'ofstream') not in t:
                say.bad('with a name, %s is made' % t[:60])
            if opened(o.st) is not True:
                say.bad('goes on with a file that is not open')
            cs = [e for e, _ in flat_events(o.st.ev) if e[0] == 'call' and e[1].endswith('::(ctor)') and 'fstream' in e[1] and e[2] == ('addr', v[1])]
            if len(cs) != 1:
                say.unk('how the file is opened is not understood')
                continue
            a = cs[0][3]
            if a[0] not in (('it', name, C(0)), name):
                (say.bad if a[0][0] == 's' else say.unk)('another file is opened')
            if len(a) > 1:
                mode(say, folded(a[1]), kind)


def folded(m):
    if m[0] == 'call' and m[1] in ('std::operator|', 'std::operator&') and len(m) == 5:
        x, y = folded(m[3]), folded(m[4])
        if x[0] == y[0] == 'c':
            return C(x[1] | y[1] if m[1].endswith('|') else x[1] & y[1])
    return m


def standard(say, P):
    """without a name, it is the standard input and output that are used"""
    for f in P.fns.values():
        if not strip_targs(f['q']).startswith('std_io_proxy::') or f.get('imp'):
            continue
        kind = 'cin' if 'istream' in f['q'] else 'cout'
        got = {x['qn'] for x in walk([f.get('inits'), f.get('body')]) if x.get('k') == 'ref' and x.get('qn') in
               ('std::cin', 'std::cout', 'std::cerr', 'std::clog')}
        if f.get('ck') == 'dtor':
            if got:
                say.bad('%s is changed where a stream is given up' % ', '.join(sorted(got)))
        elif f.get('inits') and got != {'std::' + kind}:
            (say.bad if got or any(x.get('k') in ('nullp', 'null') for x in walk(f['inits'])) else say.unk)(
                'without a name, %s stands for the standard %s' % (', '.join(sorted(got)) or 'something else', 'input' if kind == 'cin' else 'output'))


def opened(st):
    for a, b in st.facts.items():
        if a[0] == 'T' and a[1][0] == 'call' and a[1][1].endswith('::is_open'):
            return b
    return None


def mode(say, m, kind):
    if m[0] != 'c':
        return
    IN, OUT, APP, ATE, TRUNC = 8, 16, 1, 2, 32
    if not m[1] & (IN if kind == 'istream' else OUT):
        say.bad('the file is not opened for %s' % ('reading' if kind == 'istream' else 'writing'))
    if m[1] & (APP | ATE) or kind == 'ostream' and m[1] & IN or kind == 'istream' and m[1] & TRUNC:
        say.bad('the file is opened in another way')

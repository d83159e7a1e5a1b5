"""P01: what a blueprint holds becomes elements, each part in its place."""
import q01
import refr
from absint import Interp, Budget, C, NULL, TRUE, FALSE, EMPTY, St, at, read, write, fmt, decide, assume, mk_eq, size_of, mentions
from front import loc, strip_targs
from q01 import If, Val, fld, leaves, strange, short
from say import Say
from seqv import FactsOnly
from spec import odd

RULE = 'converted-whole'
NI = 'drafter::NodeInfo<'
ZIP = 'drafter::NodeInfoCollection<'
CONV = {'BlueprintToRefract', 'AnnotationToRefract', 'ElementToRefract', 'CategoryToRefract', 'ResourceToRefract', 'ActionToRefract',
        'TransactionToRefract', 'PayloadToRefract', 'HeaderToRefract', 'ParametersToRefract', 'ParameterToRefract', 'ExtractParameter',
        'ParameterValuesToRefract', 'CopyToRefract', 'MetadataToRefract', 'DataStructureToRefract', 'MSONToRefract', 'ExpandRefract',
        'PrimitiveToRefract', 'LiteralToRefract', 'make_asset_element', 'SourceMapToRefract', 'SourceMapToRefractWithColumnLineInfo'}
MAYBE = {'MSONToRefract', 'ExpandRefract', 'DataStructureToRefract', 'CopyToRefract'}
TERM = {'parseMediaType': 'mediatype', 'getContentTypeFromHeaders': 'contenttype', 'isJSON': 'isjson', 'GetLineFromMap': 'line of',
        'generateJsonValue': 'json value', 'generateJsonSchema': 'json schema', 'expandMson': 'expandMson', 'options': 'options',
        'is_skip_gen_bodies': 'skip bodies', 'is_skip_gen_body_schemas': 'skip schemas', 'newlineIndices': 'newlines', 'LiteralTo': 'literal'}


def kind_of_pointer(P, t):
    s = P.ty(t)['s'].replace('const ', '')
    if s.startswith('std::unique_ptr<'):
        s = s[len('std::unique_ptr<'):].rsplit(', std::default_delete', 1)[0]
    return refr.kind_of(s)


def make_hooks(P):
    H = refr.hooks(dispatch=True)
    inner, ictor = H['call'], H.get('ctor')

    def new(I, s, kind, name, vals, there=True):
        I.nu += 1
        l = ('el', I.nu)
        s.emit('made', l, kind, name, tuple(vals), there)
        return [(s, ('V', ('addr', l)))]

    def info(I, s, a):
        l = I.as_loc(s, a)
        if l[0] == 'elem':
            v = read(s, l[1])
            if v[0] == 'zip':
                return ('ni', ('entry', v[1], l[2]), ('entry', v[2], l[2]), FALSE)
        return ('ni', read(s, ('fld', l, 'node')), read(s, ('fld', l, 'sourceMap')), read(s, ('fld', l, 'empty')))

    def arg(I, s, f, i, a):
        t = P.ty(f['ps'][i]['t'])['s'] if i < len(f['ps']) else ''
        if 'NodeInfo<' in t:
            return info(I, s, a)
        return I.val(s, a)

    def may_fail(I, s):
        for q in ('snowcrash::SourceAnnotation', 'std::exception'):
            I.nu += 1
            I.exc[-1].append((s.copy(), ('exc', q, I.nu)))

    def conv(I, s, f, args):
        if f['n'] == 'BlueprintToRefract':
            may_fail(I, s)
        t = ('conv', f['n']) + tuple(arg(I, s, f, i, a) for i, a in enumerate(args) if not context(P, f, i))
        return [(s, ('V', t))] if f['n'] in MAYBE else new(I, s, None, None, (t,))
    H['conv'] = conv

    def ctor(I, e, s, fr, l, args):
        q = e['q'].rsplit('::', 1)[0]
        if q.startswith(ZIP) and e.get('ck') not in ('copy', 'move') and len(args) in (1, 2):
            if len(args) == 1:
                i = info(I, s, args[0])
                v = ('zip', at(i[1]), at(i[2]))
            else:
                v = ('zip', I.as_loc(s, args[0]), I.as_loc(s, args[1]))
            write(s, l, v)
            return [s]
        if q == 'refract::dsd::Holder' and len(args) == 1 and e.get('ck') not in ('copy', 'move'):
            write(s, l, ('held', I.val(s, args[0])))
            return [s]
        return ictor(I, e, s, fr, l, args) if ictor else None

    def call(I, e, b, s, fr, ob, args):
        if b is None:
            return None
        f = P.fns.get(e['f'])
        n = b.rsplit('::', 1)[-1]
        if b in ('refract::make_element', 'refract::make_empty', 'refract::from_primitive', 'refract::from_primitive_t', 'refract::make_unique',
                 'refract::generate_element'):
            k = kind_of_pointer(P, f['ret'] if f else e['t'])
            if k is not None:
                vals = [I.val(s, a) for a in args]
                if n == 'from_primitive_t':
                    return new(I, s, k, vals[0], vals[1:])
                if n == 'make_unique':
                    return new(I, s, k, vals[0], vals[1:]) if len(vals) == 2 else new(I, s, k, None, vals, bool(vals))
                if n == 'generate_element':
                    r = []
                    (s, v), = new(I, s, k, None, ())
                    for s2, _ in I.apply(vals[0], s, fr, [('L', ('fld', at(v[1]), 'data_'))], e):
                        r.append((s2, v))
                    return r
                return new(I, s, k, None, vals, n != 'make_empty')
        if b == 'refract::IElement::element' and args or b == 'refract::Element::element' and args:
            s.emit('named', ob, I.val(s, args[0]))
            return [(s, ('V', ('void',)))]
        if b in ('refract::Element::meta', 'refract::Element::attributes'):
            return [(s, ('L', ('fld', ob, n + '_')))]
        if b == 'refract::Element::get' and not args:
            return [(s, ('L', ('fld', ob, 'data_')))]
        if b == 'refract::InfoElements::set' and len(args) == 2:
            s.emit('set', ob, I.val(s, args[0]), I.val(s, args[1]))
            return [(s, ('V', ('void',)))]
        if n == 'empty' and ob is not None and not args and ('mson::' in b or 'DataStructure' in b):
            return [(s, ('V', ('emptyds', ob)))]
        if n == 'elements' and ob is not None and not args:
            return [(s, ('L', ('fld', ob, 'elements')))]
        if b == 'std::transform' and len(args) == 5:
            a, d, fn = I.val(s, args[0]), I.val(s, args[3]), I.val(s, args[4])
            z, m = I.val(s, args[1]), I.val(s, args[2])
            if a[0] == z[0] == m[0] == 'it' and d[0] == 'backins' and a[1] == z[1] and (a[2], m[2]) == (C(0), C(0)) and z[2] == ('size', a[1]):
                I.nu += 1
                ix = ('ix', I.nu)
                r = []
                for s2, x in I.apply(fn, s, fr, [('L', ('elem', a[1], ix)), ('L', ('elem', m[1], ix))], e):
                    write(s2, d[1], ('paired', a[1], ix, I.val(s2, x)))
                    r.append((s2, ('V', ('void',))))
                return r
        if n in CONV and f is not None and ob is None and args:
            return conv(I, s, f, args)
        if n == 'serialize_json' and len(args) == 2:
            s.emit('out', I.as_loc(s, args[0]), ('as json', I.val(s, args[1])), e.get('l'), fr.fn, None)
            return [(s, ('V', ('void',)))]
        if b == 'apib::backend::serialize' and len(args) == 1:
            return [(s, ('V', ('mediatext', I.val(s, args[0]))))]
        if n in TERM and (f is None or not f['file'].endswith('RefractAPI.cc')):
            return [(s, ('V', (TERM[n],) + ((read(s, ob),) if ob is not None else ()) + tuple(I.val(s, a) for a in args)))]
        if n == 'RegisterNamedTypes' and f is not None and args:
            s.emit('registers', arg(I, s, f, 0, args[0]))
            may_fail(I, s)
            return [(s, ('V', ('void',)))]
        if n in ('NullNode', 'NullSourceMap') and not args:
            return [(s, ('V', ('no', n)))]
        return inner(I, e, b, s, fr, ob, args)
    H['call'], H['ctor'] = call, ctor
    return H


def context(P, f, i):
    return i < len(f['ps']) and 'ConversionContext' in P.ty(f['ps'][i]['t'])['s']


class Conversions(Interp):
    def apply(self, fv, s, fr, args, e):
        f = self.P.fns.get(fv[1]) if fv[0] in ('fn', 'fnloc') else None
        if f is not None and f['n'] in CONV and args:
            return self.hooks['conv'](self, s, f, args)
        if fv[0] == 'fnloc':
            return super().apply(('fn',) + tuple(fv[1:]), s, fr, args, e)
        if fv[0] == 'rec' and e.get('a') and len(args) == 1:
            gs = list(called(self.P, e['a'][-1].get('t')))
            if len(gs) > 1:
                gs = [g for g in gs if 'unique_ptr' in self.P.ty(g['ps'][0]['t'])['s']][:1]
            for g in gs:
                if self.may_inline(g, fr):
                    l = self.fresh('tmp')
                    write(s, l, fv)
                    return self.invoke(g, s, fr, l, args)
        return super().apply(fv, s, fr, args, e)


def called(P, t):
    """the bodies a function object of this type runs"""
    q = P.ty(t)['s'].replace('const ', '').rstrip(' &') if t is not None else ''
    for f in P.fns.values():
        if q and f['n'] == 'operator()' and strip_targs(f['q']).startswith(q + '::operator()') and f.get('body') is not None and len(f['ps']) == 1:
            yield f


class Strange(Exception):
    pass


class Wrong(Exception):
    """what no definition could ask for"""


class Split(Exception):
    """a question the path leaves open"""

    def __init__(self, key):
        self.key = key


class Ask:
    """what a path knows, and what is being supposed of the rest"""

    def __init__(self, facts, supposed, consts):
        self.f, self.s, self.c = facts, supposed, consts

    def const(self, n):
        return C(self.c[n])

    def key(self, k):
        if k in self.f:
            return self.f[k]
        if k in self.s:
            return self.s[k]
        raise Split(k)

    def true(self, t):
        if t[0] == 'not':
            return not self.true(t[1])
        if t == TRUE or t == FALSE:
            return t == TRUE
        if t[0] == 's':
            return bool(t[1])
        return self.key(('T', t))

    def some(self, l):
        if l[0] == 's':
            return bool(l[1])
        return self.key(('T', ('size', l)))

    def eq(self, a, b):
        c = mk_eq(a, b)
        return c == TRUE if c in (TRUE, FALSE) else self.cond(c)

    def cond(self, c):
        if c[0] == 'not':
            return not self.cond(c[1])
        if c[0] in ('T', 'eq', 'lt'):
            return self.key(c)
        return self.true(c)

    def under(self, facts):
        return Ask(facts, self.s, self.c)


def plain(t):
    """one writing for each place: entries of zipped collections, objects behind addresses"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(plain(x) for x in t)
    if t[0] == 'fld' and len(t) == 3:
        l = t[1]
        if l[0] == 'elem' and l[1][0] == 'zip':
            z = l[1]
            if t[2] == 'node':
                return ('entry', z[1], l[2])
            if t[2] == 'sourceMap':
                return ('entry', z[2], l[2])
            if t[2] == 'empty':
                return FALSE
        if t[2] in ('elements_', 'm_elements') and l[0] == 'fld' and l[2] in ('data_', 'content'):
            return l if l[2] == 'data_' else ('fld', l, 'elements')
    if t[0] == 'at' and len(t) == 2 and t[1][0] == 'addr':
        return t[1][1]
    if t[0] == 'addr' and len(t) == 2 and t[1][0] == 'at':
        return t[1][1]
    if t[0] == 'size' and len(t) == 2 and t[1][0] == 'zip':
        return ('size', t[1][1])
    if t[0] == 'clone' and len(t) in (2, 3) and t[1][0] == 'at':
        return t[1][1]
    if t[0] == 'rec' and len(t) == 3 and t[1] == ('lit',) and isinstance(t[2], tuple):
        d = {x[0][1]: x[1] for x in t[2] if isinstance(x, tuple) and len(x) == 2 and x[0][0] == 'fld'}
        if set(d) == {'parameters', 'subtype', 'suffix', 'type'} and d['parameters'] == EMPTY:
            return ('mediatype of',) + tuple(d[k][1] if d[k][0] == 's' else '' if d[k] == EMPTY else d[k] for k in ('type', 'subtype', 'suffix'))
    if t[0] == 'T' and len(t) == 2 and t[1][:2] == ('conv', 'CopyToRefract') and t[1][2][0] == 'ni':
        return ('T', ('size', plain(('at', t[1][2][1]))))
    if t[0] == 'ctor' and len(t) == 3 and t[1] in ('std::variant::(ctor)', 'mpark::variant::(ctor)'):
        return t[2]
    return t


class D:
    """an element: what made it, what it is called, holds, and says about itself"""

    def __init__(self, kind=None, name=None, vals=(), has=True, meta=None, attrs=None, content=None, base=None):
        self.kind, self.name, self.vals, self.has = kind, name, tuple(vals), has
        self.meta, self.attrs, self.content, self.base = dict(meta or {}), dict(attrs or {}), list(content or ()), base
        self.squeezed = False

    def bare(self):
        return self.base is not None and not (self.name or self.meta or self.attrs or self.content)

    def tell(self):
        b = self.base[1] if self.base else self.kind
        return '%s%s' % (b, ' "%s"' % self.name[1] if self.name and self.name[0] == 's' else '')


def text(v):
    return v.tell() if isinstance(v, D) else short(v)[:120]


def facts_of(fs):
    """what is known, each thing once; None where a copy would fare otherwise than its original"""
    r = {}
    for k, v in fs.items():
        if isinstance(v, bool):
            k = plain(k)
            if r.setdefault(k, v) != v:
                return None
    return r


QUIET = {'own', 'downcast', 'finit', 'dtor', 'clear', 'upcast', 'alloc', 'owned', 'reset', 'release', 'null', 'destroy', 'moved', 'drop'}


def written(t, texts):
    """what a stream holds, for the string it gives"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'strof':
        return ('text',) + tuple(texts.get(t[1], ()))
    return tuple(written(x, texts) for x in t)


def describe(evs, els=None, inside=None):
    """the elements a path makes"""
    els = {} if els is None else els
    texts = {}
    inside = set() if inside is None else inside
    for ev in evs:
        k = ev[0]
        if k == 'made':
            v = written(ev[4], texts)
            if ev[2] is None:
                els[ev[1]] = D(base=plain(v[0]))
            else:
                els[ev[1]] = D(kind=ev[2], name=plain(ev[3]) if ev[3] else None, vals=[plain(x) for x in v], has=ev[5])
        elif k == 'named':
            d = els.get(ev[1])
            if d is None:
                raise Strange('something else is named')
            if d in inside:
                raise Strange('something named in a loop')
            d.name = plain(ev[2])
        elif k == 'set':
            t = ev[1]
            d = els.get(t[1]) if t[0] == 'fld' else None
            if d is None:
                raise Strange('information set on something else')
            if d in inside:
                raise Strange('information set in a loop')
            (d.meta if t[2] == 'meta_' else d.attrs)[plain(ev[2])] = plain(ev[3])
        elif k == 'push':
            t = plain(ev[1])
            if t[0] == 'fld' and t[2] == 'data_' and t[1] in els:
                d = els[t[1]]
                d.content.append(('item', plain(ev[2])))
                d.squeezed = False
            else:
                raise Strange('something pushed elsewhere (%s)' % short(t)[:80])
        elif k == 'out':
            texts.setdefault(ev[1], []).append(plain(ev[2]))
        elif k == 'loop':
            n = ev[1]
            r = plain(n['range'])
            if r[0] == 'range' and r[1][0] == 'fld' and r[1][2] == 'data_' and r[1][1] in els and n.get('alg') == 'remove_if':
                squeeze(els[r[1][1]], n)
                continue
            one_loop(n, r, els, inside)
        elif k in ('erase', 'remove'):
            t = plain(ev[1])
            if t[0] == 'fld' and t[2] == 'data_' and t[1] in els and els[t[1]].squeezed == 'half':
                els[t[1]].squeezed = ev[2][0][0] == 'it' and ev[2][0][2][0] == 'removed' and len(ev[2]) == 2
                if not els[t[1]].squeezed:
                    raise Strange('content erased in another way')
            else:
                raise Strange('something erased')
        elif k == 'store' and ev[1][0] in ('lv', 'tmp') or k == 'call' and ev[1].endswith('::(ctor)'):
            pass
        elif k not in QUIET:
            raise Strange('it also does: %s' % k)
    return els


def squeeze(d, n):
    """the nulls, and nothing else, moved to the end"""
    ix = n['ix']
    good = bool(n['paths'])
    turned = good
    for kind, fs, x, v in n['paths']:
        nul = [val for t, val in fs.items() if t[0] == 'T' and t[1][0] == 'elem' and t[1][2] == ix and n['prefacts'].get(t) != val]
        nul += [not val for t, val in fs.items() if t[0] == 'eq' and ix in [y[2] for y in t[1:] if y[0] == 'elem'] and NULL in t[1:]]
        gone = any(e[0] == 'removed' for e in x)
        if kind != 'norm' or not nul or gone != (not nul[0]):
            good = False
        if kind != 'norm' or not nul or gone == (not nul[0]):
            turned = False
    if turned:
        raise Wrong('what is there is removed, and what is not is kept')
    if not good:
        raise Strange('content removed on another ground')
    d.squeezed = 'half'


def one_loop(n, r, els, inside):
    paths = []
    held = {}
    for l, d in els.items():
        held[l] = list(d.content)
    grown = {}
    for i, (kind, fs, x, v) in enumerate(n['paths']):
        if kind not in ('norm', 'cont', 'brk'):
            raise Strange('a loop left early (%s)' % kind)
        for l in held:
            els[l].content = []
        describe(x, els, inside | {els[l] for l in held})
        if kind == 'brk':
            if any(els[l].content for l in held) and any(n['prefacts'].get(k) != v for k, v in fs.items()) is False:
                raise Wrong('the parts after the first are left out')
            raise Strange('a loop left early')
        for l in held:
            if els[l].content:
                grown.setdefault(l, {})[i] = els[l].content
        for l in held:
            els[l].content = list(held[l])
        paths.append(facts_of(fs))
    for l, by in grown.items():
        els[l].content.append(('for', n['ix'], r, [(paths[i], by.get(i, [])) for i in range(len(paths)) if paths[i] is not None]))
        els[l].squeezed = False


def differ(a, b):
    """the first place two values part at"""
    while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] == b[:1] and a[0] != 'fld':
        for x, y in zip(a, b):
            if x != y:
                break
        if not isinstance(x, tuple) or not isinstance(y, tuple):
            break
        a, b = x, y
    return '%s, not from %s' % (short(a)[:100] or '""', short(b)[:100] or '""')


class Case:
    """one path of one conversion against what it should make"""

    def __init__(self, els, spec):
        self.els, self.spec, self.bad = els, spec, None
        self.deep = 0

    def say(self, t):
        self.bad = self.bad or t

    def get(self, v):
        if v is not None and not isinstance(v, D) and v[0] == 'addr' and v[1] in self.els:
            d = self.els[v[1]]
            return d
        if v is not None and not isinstance(v, D) and v[0] == 'conv':
            return D(base=v)
        return None if v == NULL or v == ('void',) else v

    def grow(self, d, A):
        """the definition in place of the name"""
        if isinstance(d, D) and d.base is not None and d.base[1] in self.spec and self.deep < 6:
            r = self.spec[d.base[1]](A, *d.base[2:])
            if r is None or not isinstance(r, D):
                return r
            r2 = D(r.kind, d.name or r.name, r.vals, r.has, {**r.meta, **d.meta}, {**r.attrs, **d.attrs}, r.content + d.content, r.base)
            return r2
        return Strange

    def same(self, g, e, A, what):
        g, e = self.get(g), self.get(e)
        if isinstance(g, D) and isinstance(e, D) and g.base is not None and e.base is not None and g.base[1] == e.base[1]:
            if g.base != e.base:
                return self.say('%s is made from %s' % (what, differ(g.base, e.base)))
            return self.parts(g, e, A, what)
        if isinstance(e, D) and e.base is not None and (isinstance(g, D) or g is None):
            x = self.grow(e, A)
            if x is not Strange:
                self.deep += 1
                self.same(g, x, A, what)
                self.deep -= 1
                return
        if isinstance(g, D) and g.base is not None and (isinstance(e, D) or e is None):
            x = self.grow(g, A)
            if x is not Strange:
                self.deep += 1
                self.same(x, e, A, what)
                self.deep -= 1
                return
        if isinstance(g, D) and isinstance(e, D):
            if g.base != e.base or g.kind != e.kind:
                return self.say('%s is %s, not %s' % (what, text(g), text(e)))
            if g.has != e.has:
                return self.say('%s %s' % (what, 'has a value where it should have none' if g.has else 'has no value'))
            gv, ev = self.values(g), self.values(e)
            if len(gv) != len(ev):
                return self.say('%s holds %d values, not %d' % (what, len(gv), len(ev)))
            for i, (a, b) in enumerate(zip(gv, ev)):
                self.same(a, b, A, 'value %d of %s' % (i + 1, what) if len(gv) > 1 else 'the value of %s' % what)
            return self.parts(g, e, A, what)
        if isinstance(g, tuple) and isinstance(e, tuple) and g[0] == e[0] == 'held':
            return self.same(g[1], e[1], A, what)
        if g is None or e is None or isinstance(g, D) or isinstance(e, D):
            if g is not e:
                self.say('%s is %s, not %s' % (what, text(g) if g is not None else 'nothing', text(e) if e is not None else 'nothing'))
            return
        if g != e:
            if g[0] in ('call', 'apply', 'fresh', 'hv'):
                raise Strange('%s: a value not followed (%s)' % (what, short(g)[:80]))
            self.say('%s is %s, not %s' % (what, short(g)[:160], short(e)[:160]))

    def values(self, d):
        """elements given to a list are its content"""
        return [] if d.kind in ('Array', 'Object') else d.vals

    def items(self, d):
        if d.kind in ('Array', 'Object') and d.vals:
            return [('item', v) for v in d.vals] + d.content
        return d.content

    def parts(self, g, e, A, what):
        if (g.name or None) != (e.name or None):
            return self.say('%s is called %s, not %s' % (what, short(g.name) if g.name else 'by its default', short(e.name) if e.name else 'by its default'))
        for n in ('meta', 'attrs'):
            a, b = getattr(g, n), getattr(e, n)
            for k in list(a) + list(b):
                if k not in a:
                    return self.say('%s has no %s' % (what, short(k)))
                if k not in b:
                    return self.say('%s has %s, which it should not' % (what, short(k)))
            for k in a:
                self.same(a[k], b[k], A, '%s of %s' % (short(k), what))
        self.lists(self.items(g), self.items(e), A, what, g.squeezed is True)

    def maybe(self, v, A):
        """None for nothing, False for something, True for what only the run can tell"""
        v = self.get(v)
        if v is None:
            return None
        b = v.base if isinstance(v, D) else v
        if b is not None and b[0] == 'conv' and b[1] in MAYBE | {'ElementToRefract'}:
            if b[1] == 'CopyToRefract':
                return False if A.some(at(b[2][1])) else None
            k = ('T', b)
            if k in A.f or k in A.s:
                return False if A.key(k) else None
            return True
        return False

    def flat(self, l, A):
        r = []
        for x in l:
            if x[0] == 'item':
                m = self.maybe(x[1], A)
                r.append(('item', x[1], m))
            else:
                r.append(x)
        return r

    def lists(self, g, e, A, what, squeezed):
        g, e = self.flat(g, A), self.flat(e, A)
        if squeezed:
            g = [x for x in g if not (x[0] == 'item' and x[2] is None)]
        e = [x for x in e if not (x[0] == 'item' and x[2] is None)]
        g = [x for x in g if x[0] == 'item' or any(b for _, b in x[3])]
        e = [x for x in e if not (x[0] == 'for' and not self.some_items(x, A))]
        g = [x for x in g if not (x[0] == 'for' and self.none_there(x, A))]
        for i in range(max(len(g), len(e))):
            if i >= len(e):
                return self.say('%s holds %s too many' % (what, self.tell(g[i])))
            if i >= len(g):
                return self.say('%s lacks %s' % (what, self.tell(e[i])))
            a, b = g[i], e[i]
            if a[0] != b[0]:
                return self.say('%s holds %s where %s belongs' % (what, self.tell(a), self.tell(b)))
            if a[0] == 'item':
                if a[2] is None:
                    return self.say('%s holds nothing as item %d' % (what, i + 1))
                if a[2] is True and not squeezed:
                    return self.say('%s may hold nothing as item %d' % (what, i + 1))
                self.same(a[1], b[1], A, 'item %d of %s' % (i + 1, what))
                continue
            if over(a[2]) != b[1]:
                return self.say('%s: goes over %s, not %s' % (what, short(over(a[2]))[:160], short(b[1])[:160]))
            for fs, body in a[3]:
                A2 = A.under(fs)
                exp = b[2](A2, a[1])
                self.lists(body, exp, A2, 'each part of ' + what, squeezed)

    def none_there(self, x, A):
        k = ('T', ('size', over(x[2])))
        return A.f.get(k, A.s.get(k)) is False

    def some_items(self, x, A):
        k = ('T', ('size', x[1]))
        return A.f.get(k, A.s.get(k)) is not False

    def tell(self, x):
        if x[0] == 'item':
            v = self.get(x[1])
            return text(v) if v is not None else 'nothing'
        return 'the parts of ' + short(x[2] if len(x) == 4 else x[1])[:100]


def over(r):
    """the collection a loop goes over, from its first entry to its last"""
    if r[0] == 'range' and r[2][0] == 'c' and r[3] == ('size', r[1]) and r[2] != C(0):
        raise Wrong('%s is gone over from entry %s' % (short(r[1])[:80], r[2][1]))
    if r[0] == 'range' and r[2] == C(0) and r[3][0] == 'c':
        raise Wrong('%s is gone over to entry %s only' % (short(r[1])[:80], r[3][1]))
    if r[0] != 'range' or r[2] != C(0) or r[3][0] != 'size':
        raise Strange('a loop over something else (%s)' % short(r)[:80])
    return r[3][1]


def start(P):
    """what the constants hold"""
    st = St()
    for u, g in P.gvars.items():
        if '@SerializeKey@' in u and g.get('e'):
            a = g['e'].get('a') or ()
            if a and a[0].get('k') == 'str':
                write(st, ('gv', u), ('s', a[0]['v']))
        elif u.endswith('SourceAnnotation@OK') and g.get('e'):
            if isinstance(g['e'].get('cv'), int):
                write(st, ('gv', u), C(g['e']['cv']))
    return st


def run(P, f, depth=14):
    I = Conversions(P, hooks=make_hooks(P), max_states=60000, max_depth=depth, noinline=())
    I.max_steps = 20000000
    return I, I.run(f, st=start(P))


# ---- what each conversion makes -------------------------------------------------------------------------

def key(n):
    return ('s', n)


def conv(n, *a):
    return D(base=('conv', n) + a)


def nod(ni):
    return plain(at(ni[1]))


def srcm(ni):
    return plain(at(ni[2]))


def part(ni, *names):
    """a part of a node with the same part of its map"""
    a, b = nod(ni), srcm(ni)
    for n in names:
        a, b = ('fld', a, n), ('fld', b, n)
    return plain(('ni', ('addr', a), ('addr', b), FALSE))


def has(A, ni, *names):
    l = nod(ni)
    for n in names:
        l = ('fld', l, n)
    return A.some(l)


def prim(ni):
    return conv('PrimitiveToRefract', ni)


def string(v):
    return D('String', vals=[v])


def klass(n):
    return D('Array', vals=[string(key(n))])


def mapped(A, ni):
    """the source map of a node, where it has one"""
    m = ('fld', srcm(ni), 'sourceMap')
    return {key('sourceMap'): conv('SourceMapToRefract', m)} if A.some(m) else {}


def item(v):
    return ('item', v)


def entries(ni, name, *more):
    """every entry of a collection converted, in its order"""
    c, m = nod(ni), srcm(ni)

    def one(A, ix):
        return [item(conv(name, ('ni', ('entry', c, ix), ('entry', m, ix), FALSE)))]
    return ('for', c, one)


def collection(ni, name, kind='Array', called=None):
    return D(kind, name=key(called) if called else None, content=[entries(ni, name)])


def s_primitive(A, ni):
    return D('String', vals=[nod(ni)], attrs=mapped(A, ni))


def s_literal(A, ni):
    lit = ('literal', nod(ni))
    if A.true(('fld', lit, 'first')):
        return D('String', vals=[('fld', lit, 'second')], attrs=mapped(A, ni))
    return D('String', has=False, attrs=mapped(A, ni))


def s_datastructure(A, ni):
    v = ('conv', 'MSONToRefract', ni)
    if A.true(('expandMson', ('obj', 'context'))):
        v = ('conv', 'ExpandRefract', v)
    return D('Holder', name=key('dataStructure'), vals=[('held', v)]) if A.true(v) else None


def s_pair(A, ni):
    return D('Member', vals=[string(('fld', nod(ni), 'first')), string(('fld', nod(ni), 'second'))], attrs=mapped(A, ni))


def s_metadata(A, ni):
    d = s_pair(A, ni)
    d.meta[key('classes')] = klass('user')
    return d


def s_copy(A, ni):
    if not A.some(nod(ni)):
        return None
    d = prim(ni)
    d.name = key('copy')
    return d


def s_values(A, ni):
    d = D('Enum', vals=[conv('LiteralToRefract', part(ni, 'exampleValue'))]) if has(A, ni, 'exampleValue') else D('Enum', has=False)
    if has(A, ni, 'defaultValue'):
        d.attrs[key('default')] = D('Enum', vals=[conv('LiteralToRefract', part(ni, 'defaultValue'))])
    d.attrs[key('enumerations')] = collection(part(ni, 'values'), 'LiteralToRefract')
    return d


def s_extract(A, ni):
    if has(A, ni, 'values'):
        return conv('ParameterValuesToRefract', ni)
    d = conv('LiteralToRefract', part(ni, 'exampleValue')) if has(A, ni, 'exampleValue') else D('String', has=False)
    if has(A, ni, 'defaultValue'):
        d.attrs[key('default')] = prim(part(ni, 'defaultValue'))
    return d


def s_parameter(A, ni):
    d = D('Member', vals=[prim(part(ni, 'name')), conv('ExtractParameter', ni)])
    if has(A, ni, 'description'):
        d.meta[key('description')] = prim(part(ni, 'description'))
    if has(A, ni, 'type'):
        d.meta[key('title')] = prim(part(ni, 'type'))
    d.attrs[key('typeAttributes')] = klass('optional' if A.eq(('fld', nod(ni), 'use'), A.const('OptionalParameterUse')) else 'required')
    return d


def s_parameters(A, ni):
    return collection(ni, 'ParameterToRefract', 'Object', 'hrefVariables')


def s_asset(A, content, kl, ctype, m=NULL):
    d = D('String', name=key('asset'), vals=[content])
    if A.some(kl):
        d.meta[key('classes')] = D('Array', vals=[string(kl)])
    if m != NULL and A.true(m) and A.some(plain(at(m))):
        d.attrs[key('sourceMap')] = conv('SourceMapToRefract', plain(at(m)))
    if A.some(ctype):
        d.attrs[key('contentType')] = string(ctype)
    return d


def s_map(A, m):
    def one(A, ix):
        r = ('elem', m, ix)
        return [item(D('Array', vals=[D('Number', vals=[('fld', r, 'location')]), D('Number', vals=[('fld', r, 'length')])]))]
    return D('Array', vals=[D('Array', name=key('sourceMap'), content=[('for', m, one)])])


def s_lines(A, m):
    def one(A, ix):
        r = ('elem', m, ix)
        pos = ('line of', ('newlines', ('obj', 'context')), r)

        def at(v, where):
            return D('Number', vals=[('fld', r, v)], attrs={key('line'): D('Number', vals=[('fld', pos, where + 'Line')]),
                                                            key('column'): D('Number', vals=[('fld', pos, where + 'Column')])})
        return [item(D('Array', vals=[at('location', 'from'), at('length', 'to')]))]
    return D('Array', vals=[D('Array', name=key('sourceMap'), content=[('for', m, one)])])


def s_annotation(A, a, k):
    return D('String', name=key('annotation'), vals=[('fld', a, 'message')], meta={key('classes'): D('Array', vals=[string(k)])},
             attrs={key('code'): D('Number', vals=[('fld', a, 'code')]), key('sourceMap'): conv('SourceMapToRefractWithColumnLineInfo', ('fld', a, 'location'))})


def s_transaction(A, t, action, request, response):
    d = D('Array', name=key('httpTransaction'))
    if has(A, t, 'description'):
        d.content.append(item(conv('CopyToRefract', part(t, 'description'))))
    none = ('ni', ('no', 'NullNode'), ('no', 'NullSourceMap'), TRUE)
    d.content += [item(conv('PayloadToRefract', request, action)), item(conv('PayloadToRefract', response, none))]
    return d


def s_action(A, ni):
    d = D('Array', name=key('transition'), meta={key('title'): prim(part(ni, 'name'))})
    if has(A, ni, 'relation', 'str'):
        d.attrs[key('relation')] = D('String', vals=[('fld', ('fld', nod(ni), 'relation'), 'str')], attrs=mapped(A, part(ni, 'relation')))
    if has(A, ni, 'uriTemplate'):
        d.attrs[key('href')] = prim(part(ni, 'uriTemplate'))
    if has(A, ni, 'parameters'):
        d.attrs[key('hrefVariables')] = conv('ParametersToRefract', part(ni, 'parameters'))
    if not A.true(('emptyds', ('fld', nod(ni), 'attributes'))):
        d.attrs[key('data')] = ('conv', 'DataStructureToRefract', part(ni, 'attributes'))
    if has(A, ni, 'description'):
        d.content.append(item(conv('CopyToRefract', part(ni, 'description'))))
    exs = part(ni, 'examples')
    none = ('ni', ('no', 'NullNode'), ('no', 'NullSourceMap'), TRUE)

    def ent(ni, ix):
        return ('ni', ('entry', nod(ni), ix), ('entry', srcm(ni), ix), FALSE)

    def example(A, ix):
        ex = ent(exs, ix)
        rqs, rss = part(ex, 'requests'), part(ex, 'responses')
        r = []
        if not A.some(nod(rqs)) and A.some(nod(rss)):
            r.append(('for', nod(rss), lambda A, j: [item(conv('TransactionToRefract', ex, ni, none, ent(rss, j)))]))

        def request(A, j):
            rq = ent(rqs, j)
            if not A.some(nod(rss)):
                return [item(conv('TransactionToRefract', ex, ni, rq, none))]
            return [('for', nod(rss), lambda A, k: [item(conv('TransactionToRefract', ex, ni, rq, ent(rss, k)))])]
        r.append(('for', nod(rqs), request))
        return r
    d.content.append(('for', nod(exs), example))
    return d


def s_resource(A, ni):
    d = D('Array', name=key('resource'), meta={key('title'): prim(part(ni, 'name'))}, attrs={key('href'): prim(part(ni, 'uriTemplate'))})
    if has(A, ni, 'parameters'):
        d.attrs[key('hrefVariables')] = conv('ParametersToRefract', part(ni, 'parameters'))
    if has(A, ni, 'description'):
        d.content.append(item(conv('CopyToRefract', part(ni, 'description'))))
    if not A.true(('emptyds', ('fld', nod(ni), 'attributes'))):
        d.content.append(item(('conv', 'DataStructureToRefract', part(ni, 'attributes'))))
    d.content.append(entries(part(ni, 'actions'), 'ActionToRefract'))
    return d


def s_category(A, ni):
    d = D('Array', name=key('category'))
    cat = ('fld', nod(ni), 'category')
    if A.eq(cat, A.const('ResourceGroupCategory')):
        d.meta[key('classes')] = klass('resourceGroup')
        d.meta[key('title')] = prim(part(ni, 'attributes', 'name'))
    elif A.eq(cat, A.const('DataStructureGroupCategory')):
        d.meta[key('classes')] = klass('dataStructures')
    els = part(ni, 'content', 'elements')
    if A.some(nod(els)):
        if not A.some(('fld', srcm(els), 'collection')):
            els = ('ni', els[1], ('no', 'NullSourceMap'), FALSE)
        d.content.append(entries(els, 'ElementToRefract'))
    return d


def s_blueprint(A, ni):
    d = D('Array', name=key('category'), meta={key('classes'): klass('api'), key('title'): prim(part(ni, 'name'))})
    if has(A, ni, 'description'):
        d.content.append(item(conv('CopyToRefract', part(ni, 'description'))))
    if has(A, ni, 'metadata'):
        d.attrs[key('metadata')] = collection(part(ni, 'metadata'), 'MetadataToRefract')
    d.content.append(entries(part(ni, 'content', 'elements'), 'ElementToRefract'))
    return d


def s_element(A, ni):
    k = ('fld', nod(ni), 'element')
    for c, n, p in (('ResourceElement', 'ResourceToRefract', 'resource'), ('DataStructureElement', 'DataStructureToRefract', 'dataStructure'),
                    ('CopyElement', 'CopyToRefract', 'copy')):
        if A.eq(k, A.const(c)):
            return conv(n, part(ni, 'content', p))
    if A.eq(k, A.const('CategoryElement')):
        return conv('CategoryToRefract', ni)
    return 'throw'


def s_payload(A, ni, action):
    d = D('Array')
    null = A.true(ni[3])
    if not A.true(action[3]) and has(A, action, 'method'):
        d.name = key('httpRequest')
        d.attrs[key('method')] = prim(part(action, 'method'))
        if not null and has(A, ni, 'name'):
            d.meta[key('title')] = prim(part(ni, 'name'))
    else:
        d.name = key('httpResponse')
        if not null:
            d.attrs[key('statusCode')] = prim(part(ni, 'name'))
    d.attrs.update(mapped(A, ni))
    if null:
        return d
    if has(A, ni, 'parameters'):
        d.attrs[key('hrefVariables')] = conv('ParametersToRefract', part(ni, 'parameters'))
    if has(A, ni, 'headers'):
        d.attrs[key('headers')] = collection(part(ni, 'headers'), 'HeaderToRefract', 'Array', 'httpHeaders')
    if has(A, ni, 'description'):
        d.content.append(item(conv('CopyToRefract', part(ni, 'description'))))
    ds = None
    if not A.true(('emptyds', ('fld', nod(ni), 'attributes'))):
        ds = ('conv', 'MSONToRefract', part(ni, 'attributes'))
        ds = ds if A.true(ds) else None
    if ds is not None:
        v = ds
        if A.true(('expandMson', ('obj', 'context'))):
            v = ('conv', 'ExpandRefract', ds)
            v = v if A.true(v) else None
        if v is not None:
            d.content.append(item(D('Holder', name=key('dataStructure'), vals=[('held', v)])))
    mt = ('mediatype', ('contenttype', ('fld', nod(ni), 'headers')))
    json = ('isjson', mt)
    schema, plaintext = ('mediatype of', 'application', 'schema', 'json'), ('mediatype of', 'text', 'plain', '')
    if ds is None and not A.true(action[3]) and not A.true(('emptyds', ('fld', nod(action), 'attributes'))):
        ds = ('conv', 'MSONToRefract', part(action, 'attributes'))
        ds = ds if A.true(ds) else None
    full = None
    if ds is not None:
        full = ('conv', 'ExpandRefract', ds)
        full = full if A.true(full) else None
    opts = ('options', ('obj', 'context'))
    if has(A, ni, 'body'):
        d.content.append(item(conv('make_asset_element', ('fld', nod(ni), 'body'), key('messageBody'), ('mediatext', mt),
                                   ('addr', ('fld', ('fld', srcm(ni), 'body'), 'sourceMap')))))
    elif full is not None and not A.true(('skip bodies', opts)) and A.true(json):
        d.content.append(item(conv('make_asset_element', ('text', ('as json', ('json value', ('at', full)))), key('messageBody'), ('mediatext', mt), NULL)))
    if has(A, ni, 'schema'):
        d.content.append(item(conv('make_asset_element', ('fld', nod(ni), 'schema'), key('messageBodySchema'),
                                   ('mediatext', schema if A.true(json) else plaintext), ('addr', ('fld', ('fld', srcm(ni), 'schema'), 'sourceMap')))))
    elif full is not None and not A.true(('skip schemas', opts)) and A.true(json):
        d.content.append(item(conv('make_asset_element', ('text', ('as json', ('json schema', ('at', full)))), key('messageBodySchema'), ('mediatext', schema), NULL)))
    return d


SPECS = {'PrimitiveToRefract': s_primitive, 'LiteralToRefract': s_literal, 'DataStructureToRefract': s_datastructure, 'MetadataToRefract': s_metadata,
         'HeaderToRefract': s_pair, 'CopyToRefract': s_copy, 'ParameterValuesToRefract': s_values, 'ExtractParameter': s_extract,
         'ParameterToRefract': s_parameter, 'ParametersToRefract': s_parameters, 'make_asset_element': s_asset, 'TransactionToRefract': s_transaction,
         'ActionToRefract': s_action, 'ResourceToRefract': s_resource, 'CategoryToRefract': s_category, 'BlueprintToRefract': s_blueprint,
         'ElementToRefract': s_element, 'PayloadToRefract': s_payload, 'SourceMapToRefract': s_map,
         'SourceMapToRefractWithColumnLineInfo': s_lines, 'AnnotationToRefract': s_annotation}


def given(P, f):
    """the arguments of a conversion as the definitions name them"""
    r = []
    for i, p in enumerate(f['ps']):
        if context(P, f, i):
            continue
        l = ('obj', p['n'] or 'p%d' % i)
        if 'NodeInfo<' in P.ty(p['t'])['s']:
            r.append(('ni', ('fld', l, 'node'), ('fld', l, 'sourceMap'), ('fld', l, 'empty')))
        else:
            r.append(l)
    return r


def judge(P, f, spec, S):
    """every path of one conversion against its definition; how many were compared"""
    I, outs = run(P, f)
    a = given(P, f)
    n = 0
    consts = {k: v for q, e in P.enums.items() if q.startswith('snowcrash::') for k, v in e['cs']}
    for o in outs:
        facts = facts_of(o.st.facts)
        todo = [{}] if facts is not None else []
        while todo:
            sup = todo.pop()
            A = Ask(facts, sup, consts)
            try:
                n += 1
                e = spec(A, *a)
                if o.kind == 'throw' or e == 'throw':
                    if (o.kind == 'throw') != (e == 'throw'):
                        S.bad('it refuses what it should convert' if o.kind == 'throw' else 'it converts what it should refuse')
                    continue
                els = describe(o.st.ev)
                c = Case(els, SPECS)
                c.same(plain(o.val[1]) if o.val and o.val[0] == 'V' else None, e, A, 'the result')
                if c.bad:
                    S.bad(c.bad)
            except Split as x:
                if len(sup) > 8:
                    S.unk('too much is open on a path')
                    continue
                todo += [{**sup, x.key: True}, {**sup, x.key: False}]
            except Wrong as x:
                S.bad(str(x))
            except Strange as x:
                S.unk(str(x))
    return n


def one_error(v):
    """an error as its three parts"""
    if v[0] == 'rec':
        d = {x[0][1]: x[1] for x in v[2]}
    else:
        d = {n: ('fld', v, n) for n in ('code', 'message', 'location')}
    return tuple(d.get(n) for n in ('code', 'message', 'location'))


def wrapped(P, f, S):
    """the whole answer: the blueprint, then the error, then every warning"""
    I, outs = run(P, f)
    bp, ctx = ('obj', f['ps'][0]['n']), ('obj', f['ps'][1]['n'])
    rep = ('fld', bp, 'report')
    err, warn, more = ('fld', rep, 'error'), ('fld', rep, 'warnings'), ('fld', ctx, 'warnings_')
    good = next((read(start(P), ('gv', u)) for u in P.gvars if u.endswith('SourceAnnotation@OK')), None)
    mson = next(v for q, e in P.enums.items() if q.startswith('snowcrash::') for k, v in e['cs'] if k == 'MSONError')
    n = 0
    for o in outs:
        facts = facts_of(o.st.facts)
        if facts is None:
            continue
        if o.kind == 'throw':
            S.bad('a failure of the conversion is let through')
            continue
        todo = [{}]
        while todo:
            sup = todo.pop()
            A = Ask(facts, sup, {})
            n += 1
            try:
                wrap_path(o, A, bp, ctx, err, warn, more, good, mson, S)
            except Split as x:
                if len(sup) > 6:
                    S.unk('too much is open on a path')
                    continue
                todo += [{**sup, x.key: True}, {**sup, x.key: False}]
            except Strange as x:
                S.unk(str(x))
    return n


def wrap_path(o, A, bp, ctx, err, warn, more, good, mson, S):
    st = o.st
    fine = A.eq(('fld', err, 'code'), good)
    regs = [e for e in st.ev if e[0] == 'registers']
    caught = [e[1] for e in st.ev if e[0] == 'catch']
    whole = ('ni', ('addr', ('fld', bp, 'node')), ('addr', ('fld', bp, 'sourceMap')), FALSE)
    els = part(whole, 'content', 'elements')
    if fine and [plain(e[1]) for e in regs] != [els]:
        return S.bad('the named types are not registered once, from the content with its map')
    if not fine and (regs or caught):
        return S.bad('a blueprint with an error is converted')
    keep = []
    for e in st.ev:
        if e[0] in ('registers', 'catch'):
            continue
        if e[0] in ('store', 'assign') and (mentions(e[1], err) or e[1][0] in ('lv', 'tmp') or e[1][0] == 'fld' and e[1][1][0] in ('lv', 'tmp')):
            continue
        if e[0] == 'call' and e[1].endswith('::what') or e[0] == 'insert' and e[1] == warn:
            continue
        if e[0] == 'clear' and (e[1][0] == 'fld' and e[1][1][0] in ('lv', 'tmp') or mentions(e[1], ctx)):
            continue
        keep.append(e)
    if fine and not any(e[0] == 'clear' and mentions(e[1], ctx) and e[1][-1] == 'types_' for e in st.ev):
        return S.bad('the registered types are kept')
    now = one_error(('rec', None, tuple((('fld', k), plain(read(st, ('fld', err, k)))) for k in ('code', 'message', 'location'))))
    if not caught:
        want = one_error(err)
    elif caught[0][1] == 'std::exception':
        want = (C(mson), ('call', 'std::exception::what', caught[0]), EMPTY)
    else:
        want = one_error(caught[0])
        if A.eq(want[0], good):
            return
    if now != want:
        return S.bad('the error kept is %s' % differ(now, want))
    failed = bool(caught) or not fine
    top = describe(keep)
    c = Case(top, SPECS)
    d = D('Array', name=key('parseResult'))
    if not failed:
        d.content.append(item(conv('BlueprintToRefract', whole)))
    if failed:
        d.content.append(item(conv('AnnotationToRefract', ('error',) + now, key('error'))))
    w = plain(read(st, warn))
    end, first, last = ('it', warn, ('size', warn)), ('it', more, C(0)), ('it', more, ('size', more))
    if A.some(more):
        if w[:3] != ('inserted', warn, (end, first, last)):
            if w[0] in ('hv', 'call') or w[0] == 'inserted' and w[1] != warn:
                raise Strange('the warnings are put together in a way not followed')
            return S.bad('the warnings of the conversion are not added after those of the parser')
    elif w != warn and w[:3] != ('inserted', warn, (end, first, last)):
        return S.bad('the warnings are changed')
    d.content.append(('for', w, lambda A, ix: [item(conv('AnnotationToRefract', ('elem', w, ix), key('warning')))]))
    for x in top.values():
        if x.base is not None and x.base[1] == 'AnnotationToRefract' and (x.base[2] == err or x.base[2][0] == 'rec'):
            x.base = x.base[:2] + (('error',) + one_error(x.base[2]),) + x.base[3:]
    v = plain(o.val[1]) if o.val and o.val[0] == 'V' else None
    c.same(v, d, A, 'the result')
    if c.bad:
        S.bad(c.bad)


def pointed(v):
    return plain(at(v)) if v[0] != 'it' else ('elem', v[1], v[2])


def zipped(P, f, S):
    """every entry of a collection with its own map, or each with none"""
    I = Conversions(P, hooks=make_hooks(P), max_states=6000)
    ps = [('obj', p['n']) for p in f['ps']]
    nodes, maps = (plain(at(('fld', ps[0], 'node'))), plain(at(('fld', ps[0], 'sourceMap')))) if len(ps) == 1 else ps
    maps = ('fld', maps, 'collection')
    n = 0
    for o in I.run(f):
        n += 1
        facts = facts_of(o.st.facts)
        if o.kind == 'throw' or facts is None:
            S.unk('raises')
            continue
        c = mk_eq(('size', nodes), ('size', maps))
        equal = facts.get(c)
        less = [facts.get(('lt', ('size', x), ('size', y))) for x, y in ((nodes, maps), (maps, nodes))]
        if equal is None and less == [False, False]:
            equal = True
        if equal is None and True in less:
            equal = False
        if equal is None and less in ([False, None], [None, False]):
            S.bad('a collection of another size passes for the maps of this one')
            continue
        if equal is None:
            if any(v and k[0] == 'T' and k[1][0] == 'size' for k, v in facts.items()) or facts.get(('T', ('size', nodes))) is not False:
                S.unk('whether there is a map for each is not asked')
            continue
        got = []
        for e in o.st.ev:
            if e[0] == 'loop':
                ix, r = e[1]['ix'], plain(e[1]['range'])
                for kind, fs, x, v in e[1]['paths']:
                    ps_ = [y for y in x if y[0] == 'push' and y[1][0] == 'obj']
                    if kind not in ('norm', 'cont') or len(ps_) != 1 or r[2] != C(0):
                        got.append(None)
                        continue
                    got.append((ix, r[3], plain(ps_[0][2])))
            elif e[0] == 'push':
                got.append(None)
        if len(got) != 1 or got[0] is None:
            if not got:
                S.bad('nothing is kept of the collection')
            else:
                S.unk('not one loop that keeps each entry')
            continue
        ix, hi, v = got[0]
        if v[0] == 'elem' and v[1][0] == 'paired':
            pr = v[1]
            if v[2] != ix or hi != ('size', pr):
                S.unk('the entries are kept in a way not followed')
                continue
            ix, hi, v = pr[2], ('size', pr[1]), pr[3]
        elif v[0] == 'elem' and v[1][0] in ('lv', 'hv', 'call'):
            S.unk('the entries are kept in a way not followed')
            continue
        if hi != ('size', nodes):
            S.bad('not every entry is kept (%s)' % short(hi)[:80])
            continue
        if v[0] != 'rec':
            S.unk('an entry not followed: %s' % short(v)[:80])
            continue
        d = {x[0][1]: x[1] for x in v[2]}
        if pointed(d['node']) != ('elem', nodes, ix):
            S.bad('an entry is %s, not the one at its place' % short(d['node'])[:100])
        if d['empty'] != FALSE:
            S.bad('an entry is said to be missing')
        if equal and pointed(d['sourceMap']) != ('elem', maps, ix):
            S.bad('an entry has the map %s, not its own' % short(d['sourceMap'])[:100])
        if not equal and d['sourceMap'] != ('no', 'NullSourceMap'):
            S.bad('an entry has a map that may not be there (%s)' % short(d['sourceMap'])[:100])
    return n


def check(R, P):
    R.rule('Every conversion of a part of the blueprint is followed on all paths, down to the elements it makes: their kinds, '
           'names, values, information and content, with loops kept as loops over a collection. On each path the element given '
           'back is held against the one that is due for what the path has found out about the node: each part that is there '
           'appears once, in its place, with its own source map; no part that is not there appears; content keeps the order of '
           'the blueprint and has no holes. Calls between conversions are compared by what they are given, or opened where they '
           'are not called by name.')
    files = ('RefractAPI.cc', 'RefractSourceMap.cc', 'RefractSourceMap.h')
    found = {}
    for f in P.fns.values():
        if f.get('body') is not None and f['n'] in SPECS and f['file'].endswith(files) and f['ps']:
            found.setdefault(f['n'], []).append(f)
    for n, spec in SPECS.items():
        for f in found.get(n, ()):
            R.seen(f)
            S = Say(R, f, n, RULE)
            try:
                k = judge(P, f, spec, S)
            except Budget:
                S.unk('too large to follow')
                k = 0
            R.ob('conversion', '%s %s (%d paths)' % (loc(f), f['q'][:80], k), S.ok is True and k > 0)
    for f in P.fns.values():
        if f['q'] == 'drafter::WrapRefract' and f.get('body') is not None and len(f['ps']) == 2:
            R.seen(f)
            S = Say(R, f, 'the whole answer', RULE)
            try:
                k = wrapped(P, f, S)
            except Budget:
                S.unk('too large to follow')
                k = 0
            R.ob('whole answer', '%s %s (%d paths)' % (loc(f), f['q'][:80], k), S.ok is True and k > 0)
    for f in P.fns.values():
        if f['q'].startswith(ZIP) and f['n'] == 'NodeInfoCollection' and f.get('body') is not None and f['ps'] and not copied(P, f):
            R.seen(f)
            S = Say(R, f, 'nodes with their maps', RULE)
            try:
                k = zipped(P, f, S)
            except Budget:
                S.unk('too large to follow')
                k = 0
            R.ob('collection with its maps', '%s %s (%d paths)' % (loc(f), f['q'][:80], k), S.ok is True and k > 0)
    R.floor('conversion', 21)
    R.floor('whole answer', 1)
    R.floor('collection with its maps', 8)


def copied(P, f):
    return 'NodeInfoCollection' in P.ty(f['ps'][0]['t'])['s']

"""E02: copies are complete and independent; a clone takes exactly the facets asked for."""
import refr
from absint import Interp, Budget, C, at, read, fmt, project, decide, mk_eq, mentions
from copies import copied, rec_copied, parts_of
from eqrule import shape
from front import loc, strip_targs
from refr import KINDS
from seqv import describe, FactsOnly

RULE = 'copy-takes-every-part'


def repo_file(f):
    return not f['file'].startswith('/')


def key_rec(q):
    return strip_targs(q)


def param_rec(P, f, i=0):
    t = P.ty(f['ps'][i]['t'])
    while t['k'] in ('ref', 'rref'):
        t = P.ty(t['p'])
    return t.get('q')


def check(R, P):
    R.rule('Every user-written copy constructor and copy assignment in the system is followed on all paths: each member '
           'of the record must end as a copy of the same member of the source - scalars equal, owned elements cloned in '
           'full exactly when set, owned sequences copied element by element over the whole range.')
    R.rule('Element::clone is followed for each of the 13 kinds under each of the 32 flag combinations: name, attributes, '
           'meta, and value presence with content must come over exactly when their flag is given, and the "id" meta '
           'entry must be dropped exactly when that is asked for.')
    done = set()
    for f in sorted(P.fns.values(), key=lambda f: (f['file'], f.get('line', 0), f['f'])):
        if not repo_file(f) or f.get('ck') not in ('copy', 'copy=') or f.get('body') is None or f.get('dft') or f.get('imp'):
            continue
        q = f['cls']
        if q not in P.recs or len(f['ps']) < 1:
            continue
        pt = P.ty(f['ps'][0]['t'])
        if pt['k'] != 'ref':
            continue        # by-value assignment: the exchange rule (E03) decides it
        if param_rec(P, f) != q or (f['file'], f['line']) in done:
            continue
        done.add((f['file'], f['line']))
        R.seen(f)
        what = '%s of %s' % ('copy construction' if f['ck'] == 'copy' else 'copy assignment', key_rec(q))
        I = Interp(P, hooks=refr.hooks(), max_states=600)
        src = ('obj', 'source')
        late = []
        if f['ck'] == 'copy=':
            I.on_mem = lambda st, l, node, fr: late.append((released(st, f['cls'], P), l, node)) \
                if l[0] == 'fld' and l[1] == src else None
        try:
            outs = I.run(f, ('obj', 'this'), [src])
        except Budget:
            R.undecided(loc(f), what + ': too many paths')
            continue
        good = True
        for o in outs:
            if o.kind != 'ret':
                continue
            if f['ck'] == 'copy=' and decide(o.st, mk_eq(('addr', ('obj', 'this')), ('addr', src))) is True:
                continue
            for fl in parts_of(P, q):
                v = read(o.st, ('fld', ('obj', 'this'), fl['n']))
                r = copied(P, o.st, shape(P, fl['t']), v, ('fld', src, fl['n']))
                if r.ok is None:
                    good = None if good else good
                    R.undecided(loc(f), '%s: member %s %s' % (what, fl['n'], r.why))
                elif r.ok is False:
                    good = False
                    R.violate(loc(f), RULE, '%s: member %s %s' % (what, fl['n'], r.why), '%s|%s' % (what, fl['n']))
        for own, l, node in late:
            if own:
                good = False
                R.violate('%s:%s' % (f['file'], node.get('l')), 'source-read-after-release',
                          '%s reads %s after releasing %s, of which the source may be a part' % (what, fmt(l), own),
                          '%s|late|%s' % (what, l[2]))
        R.ob('copy constructor or assignment', '%s %s' % (loc(f), what), good is True)
    R.floor('copy constructor or assignment', 20)
    implicit(R, P)
    clones(R, P)
    free_clone(R, P)


def released(st, cls, P):
    """an owned part of the target that holds objects of the same class and is already gone"""
    short = cls.rsplit('::', 1)[-1]
    for e in st.ev:
        if e[0] == 'drop' and e[1][0] == 'fld' and e[1][1] == ('obj', 'this'):
            for fl in parts_of(P, cls):
                if fl['n'] == e[1][2] and owns(P, fl['t'], cls):
                    return fl['n']
    return None


def owns(P, tid, cls, depth=3):
    """can an object of this type hold objects of the class"""
    s = P.ty(tid)['s']
    if cls in s:
        return True
    if depth == 0:
        return False
    for q, r in P.recs.items():
        if q != cls and len(q) > 6 and q in s:
            if any(owns(P, x['t'], cls, depth - 1) for x in r['fields'] if not x.get('static')):
                return True
    return False


def implicit(R, P):
    """compiler-made copies are complete by construction; they are deep only if nothing is owned through a raw pointer"""
    for k in KINDS:
        q = 'refract::dsd::' + k
        if q not in P.recs:
            R.lose('content type ' + q)
            continue
        own = [f for f in P.by_class(q) if f.get('ck') == 'copy' and not f.get('dft') and not f.get('imp') and f.get('body')]
        if own:
            continue
        raw = [fl['n'] for fl in parts_of(P, q) if P.ty(fl['t'])['k'] == 'ptr']
        R.ob('content type copied by the compiler', q, not raw)
        for n in raw:
            R.violate('%s' % q, RULE, 'the compiler-made copy of %s shares what %s points to' % (q, n), '%s|%s|raw' % (q, n))


def ctor_hook(P):
    def ctor(I, e, s, fr, l, args):
        if e['ck'] != 'copy' or len(args) != 1 or args[0][0] != 'L':
            return None
        q = e['q'].rsplit('::', 1)[0]
        if q == 'refract::InfoElements' or q.startswith('refract::dsd::') and q[14:] in KINDS:
            from absint import write
            write(s, l, ('dcopy', args[0][1]))
            return [s]
        return None
    return ctor


def call_hook(base):
    def call(I, e, b, s, fr, ob, args):
        from absint import write, EMPTY
        if b == 'refract::InfoElements::erase' and len(args) == 1:
            t = I.P.ty(e['a'][0]['t'])
            if 'basic_string' in t['s'] or t['k'] in ('ptr', 'arr'):
                l = ('fld', ob, 'elements')
                v = read(s, l)
                write(s, l, ('without', v, I.val(s, args[0])))
                return [(s, ('V', ('void',)))]
        if b in ('refract::Element::clone', 'refract::IElement::clone') and ob == ('obj', 'this'):
            return None
        return base(I, e, b, s, fr, ob, args)
    return call


def clones(R, P):
    hooks = refr.hooks()
    hooks['ctor'] = ctor_hook(P)
    hooks['call'] = call_hook(hooks['call'])
    this = ('obj', 'this')
    for k in KINDS:
        cls = 'refract::Element<refract::dsd::%s>' % k
        fs = [f for f in P.by_class(cls) if f['n'] == 'clone' and f.get('body') is not None]
        if not fs:
            R.lose('clone of ' + cls)
            continue
        f = fs[0]
        R.seen(f)
        ref = None
        for fl in range(32):
            I = Interp(P, hooks=hooks, max_states=600)
            try:
                outs = I.run(f, this, [C(fl)])
            except Budget:
                R.undecided(loc(f), 'clone of %s: too many paths' % k)
                continue
            good = True

            def bad(what, key):
                R.violate(loc(f), 'clone-takes-what-was-asked', 'cloning a %s element with flags 0x%02x: %s' % (k, fl, what),
                          'clone|%s' % key)
            for o in outs:
                if o.kind != 'ret' or o.val is None:
                    continue
                p = I.val(o.st, o.val)
                if p[0] != 'new':
                    R.undecided(loc(f), 'clone of %s returns %s' % (k, fmt(p)[:80]))
                    good = None
                    continue
                h = p[1]
                if refr.kind_of(h[3]) not in (None, k):
                    bad('the clone is of another kind, %s' % h[3], 'kind')
                    good = False
                name = read(o.st, ('fld', h, 'name_'))
                if ref is None and fl == 0:
                    ref = name
                if fl & 8:
                    ok = name == ('fld', this, 'name_')
                    if not ok:
                        bad('the name is %s' % fmt(name)[:60], 'name')
                else:
                    ok = not mentions(name, this)
                    if not ok:
                        bad('the name comes over uninvited', 'name-uninvited')
                good = good and ok
                for bit, n in ((2, 'attributes_'), (1, 'meta_')):
                    v = project(read(o.st, ('fld', h, n)), ('fld', 'elements'))
                    src = ('fld', ('fld', this, n), 'elements')
                    good = annot(R, P, loc(f), o.st, v, src, n, bool(fl & bit), n == 'meta_' and bool(fl & 16), bad, k, fl) and good
                hv, data = read(o.st, ('fld', h, 'hasValue_')), read(o.st, ('fld', h, 'data_'))
                if fl & 4:
                    r = copied(P, o.st, ('scalar', 'bool'), hv, ('fld', this, 'hasValue_'))
                    if not r.ok:
                        bad('value presence ' + r.why, 'presence')
                        good = False
                    r = rec_copied(P, o.st, 'refract::dsd::' + k, data, ('fld', this, 'data_'))
                    if data == ('fld', this, 'data_') or data == ('dcopy', ('fld', this, 'data_')):
                        r.ok = True
                    if r.ok is False:
                        # without a value there is nothing to carry over
                        if decide(o.st, ('T', ('fld', this, 'hasValue_'))) is False:
                            continue
                        bad('the content ' + r.why, 'content')
                        good = False
                    elif r.ok is None:
                        R.undecided(loc(f), 'clone of %s: content %s' % (k, r.why))
                else:
                    if hv != C(0):
                        if mentions(hv, this) or hv == C(1):
                            bad('value presence comes over uninvited (%s)' % fmt(hv)[:40], 'presence-uninvited')
                            good = False
                    if mentions(data, this):
                        bad('content comes over uninvited', 'content-uninvited')
                        good = False
            R.ob('clone of one kind under one flag combination', '%s %s 0x%02x' % (loc(f), k, fl), good is True)
    R.floor('clone of one kind under one flag combination', 13 * 32)


def is_id(v):
    return v == ('s', 'id')


def annot(R, P, where, st, v, src, n, want, noid, bad, k, fl):
    dsrc = ('fld', ('dcopy', src[1]), 'elements')
    lab = 'attributes' if n == 'attributes_' else 'meta'
    if not want:
        w = v
        while w[0] in ('without', 'erased'):
            w = w[1]
        if mentions(w, ('obj', 'this')):
            bad('%s come over uninvited' % lab, lab + '-uninvited')
            return False
        return True
    full = v in (src, dsrc)
    if full:
        if noid:
            bad('the "id" entry of meta is kept', 'id-kept')
            return False
        return True
    if v[0] == 'without' and v[1] in (src, dsrc):
        if not is_id(v[2]):
            bad('%s lose the entry %s' % (lab, fmt(v[2])[:40]), lab + '-lost')
            return False
        if not noid:
            bad('%s lose the "id" entry uninvited' % lab, lab + '-id-lost')
            return False
        return True
    d = describe(st, v)
    if d is not None and d == []:
        bad('%s do not come over' % lab, lab)
        return False
    if d is not None and len(d) == 1 and d[0][0] == 'map':
        info, paths = d[0][1], d[0][2]
        if info['range'] is not None and info['range'][1] in (src, dsrc):
            el = ('elem', info['range'][1], info['ix'])
            for kind, facts, vals in paths:
                isid = decide(FactsOnly(facts), mk_eq(('fld', el, 'first'), ('s', 'id')))
                if noid and isid is True:
                    if vals:
                        bad('the "id" entry of meta is kept', 'id-kept')
                        return False
                    continue
                if noid and isid is None:
                    R.undecided(where, 'meta filter not understood')
                    return None
                if len(vals) != 1:
                    bad('%s entries are lost' % lab, lab + '-lost')
                    return False
            return True
    R.undecided(where, 'clone of %s: %s is %s' % (k, lab, fmt(v)[:100]))
    return None


def free_clone(R, P):
    """the typed clone: the polymorphic clone with the caller's flags"""
    for f in P.named('refract::clone'):
        if f.get('body') is None:
            continue
        R.seen(f)
        hooks = refr.hooks()
        I = Interp(P, hooks=hooks)
        el = ('obj', 'el')
        for o in I.run(f, None, [el, ('obj', 'flags')]):
            if o.kind != 'ret' or o.val is None:
                continue
            v = I.val(o.st, o.val)
            while v[0] in ('dyncast',):
                v = v[-1]
            ok = v == ('clone', el, ('obj', 'flags'))
            if not ok and v[0] == 'clone':
                R.violate(loc(f), RULE, 'the typed clone clones %s with flags %s' % (fmt(v[1]), fmt(v[2])), 'typed-clone')
            elif not ok:
                R.undecided(loc(f), 'typed clone returns %s' % fmt(v)[:80])
            R.ob('typed clone', '%s %s' % (loc(f), f['q']), ok)
            break
    R.floor('typed clone', 1)

"""E01: equality of elements and of their contents is decided by every part, and by nothing else."""
import absint
import refr
from absint import Interp, Budget, mk_eq, mk_not, decide, assume, fmt, TRUE, FALSE, read
from eqrule import shape, equal, differ, both, known_atom
from front import loc, strip_targs, AnchorLost

RULE = 'equal-means-every-part'
KINDS = refr.KINDS


def repo_eq(P, f):
    """the record type two operands of which this compares, or None"""
    n = f['b'].rsplit('::', 1)[-1]
    if n not in ('operator==', 'operator!='):
        return None
    if not f['b'].startswith('refract::'):
        return None
    ps = [P.ty(p['t']) for p in f['ps']]
    qs = []
    for t in ps:
        while t['k'] in ('ref', 'rref'):
            t = P.ty(t['p'])
        qs.append(t.get('q'))
    if f.get('cls'):
        qs = [f['cls']] + qs
    if len(qs) == 2 and qs[0] == qs[1] and qs[0] in P.recs:
        return qs[0]
    return None


def hook_for(P):
    base = refr.hooks(dispatch=True)
    inner = base['call']

    def call(I, e, b, s, fr, ob, args):
        r = inner(I, e, b, s, fr, ob, args)
        if r is not None:
            return r
        if b in ('operator==',) or b is None:
            return None
        n = b.rsplit('::', 1)[-1]
        if n in ('operator==', 'operator!='):
            f = P.fns.get(e['f'])
            if f is not None and repo_eq(P, f) and e.get('pk', '').strip('c') == '':
                locs = ([ob] if f.get('cls') else []) + [I.as_loc(s, a) for a in args]
                v = TRUE if locs[0] == locs[1] else mk_eq(('val', locs[0]), ('val', locs[1]))
                return [(s, ('V', v if n == 'operator==' else mk_not(v)))]
        return None
    base['call'] = call
    return base


def verdicts(I, f, L, R):
    """(state, answer) for every path"""
    res = []
    args = [L, R]
    this = ('obj', 'this')
    if f.get('cls'):
        this, args = L, [R]
    for o in I.run(f, this, args):
        if o.kind != 'ret' or o.val is None:
            res.append((o.st, None))
            continue
        v = I.val(o.st, o.val)
        d = decide(o.st, v)
        if d is None and v[0] == 'c':
            d = bool(v[1])
        if d is not None:
            res.append((o.st, d))
            continue
        for b in (True, False):
            s = assume(o.st.copy(), v, b)
            if s is not None:
                res.append((s, b))
    return res


def judge(R, f, name, st, ans, parts, whole, L, Rr):
    """one path of one comparison"""
    where = loc(f)
    if decide(st, whole) is True or decide(st, mk_eq(('addr', L), ('addr', Rr))) is True:
        eqs, dif = True, False
    else:
        missing = [n for n, fe, _ in parts if not fe(st)]
        eqs = not missing
        dif = any(fd(st) for _, _, fd in parts) or decide(st, whole) is False
    odd = [a for a in st.facts if both(a, L, Rr) and not known_atom(st, a, L, Rr)]
    if ans:
        if eqs:
            return True
        if odd:
            R.undecided(where, 'compares through %s' % fmt(odd[0])[:120])
            return None
        R.violate(where, RULE, '%s answers "equal" on a path that never compares: %s' % (name, ', '.join(missing)),
                  '%s|equal-without|%s' % (name, ','.join(missing)))
        return False
    if dif:
        return True
    if odd:
        R.undecided(where, 'compares through %s' % fmt(odd[0])[:120])
        return None
    R.violate(where, RULE, '%s answers "different" on a path where nothing was found to differ (%s)' % (
        name, '; '.join(('' if v else 'not ') + fmt(a)[:80] for a, v in list(st.facts.items())[:6])),
        '%s|different-without-reason' % name)
    return False


def field_parts(P, q, L, Rr):
    out = []
    for fl in P.recs[q]['fields']:
        if fl.get('static'):
            continue
        sh = shape(P, fl['t'])
        a, b = ('fld', L, fl['n']), ('fld', Rr, fl['n'])
        out.append((fl['n'], lambda st, sh=sh, a=a, b=b: equal(st, sh, a, b),
                    lambda st, sh=sh, a=a, b=b: differ(st, sh, a, b)))
    return out


def check(R, P):
    R.rule('Every comparison of element contents (the 13 content kinds, annotation lists, saturating counters) is '
           'followed on all its paths: a path answering "equal" must have found every stored part equal, a path '
           'answering "different" must have found some part different, and "!=" must be the negation.')
    R.rule('The comparison of two elements is followed for all 13 kinds: "equal" needs the same kind, the same '
           'presence of a value, equal attributes, equal meta and (when present) equal content.')
    hooks = hook_for(P)
    L, Rr = ('obj', 'lhs'), ('obj', 'rhs')
    for f in sorted(P.fns.values(), key=lambda f: (f['file'], f.get('line', 0), f['f'])):
        q = repo_eq(P, f)
        if q is None or f.get('body') is None:
            continue
        neg = f['b'].endswith('operator!=')
        name = '%s of %s' % ('inequality' if neg else 'equality', q.replace('refract::', ''))
        R.seen(f)
        I = Interp(P, hooks=hooks, max_states=4000)
        nulls = []
        try:
            if q == 'refract::IElement' and not neg:
                ielement(R, P, f, I, L, Rr)
                continue
            I.on_deref = lambda st, v, node, fr: nulls.append((st.copy(), v, node))
            vs = verdicts(I, f, L, Rr)
        except Budget:
            R.undecided(loc(f), 'too many paths')
            continue
        whole = mk_eq(('val', L), ('val', Rr))
        ewhole = mk_eq(('elemof', L), ('elemof', Rr))
        parts = field_parts(P, q, L, Rr) if q != 'refract::IElement' else []
        good = True
        for st, ans in vs:
            if ans is None:
                R.undecided(loc(f), 'a path returns no value the analysis follows')
                good = None
                continue
            if neg:
                ans = not ans
            if q == 'refract::IElement':
                d = decide(st, ewhole)
                ok = d is ans
                if not ok:
                    if [a for a in st.facts if both(a, L, Rr)] and d is None:
                        R.undecided(loc(f), 'element inequality not expressed through element equality')
                        ok = None
                    else:
                        R.violate(loc(f), RULE, '%s is not the negation of equality' % name, name + '|negation')
            else:
                ok = judge(R, f, name, st, ans, parts, whole, L, Rr)
            if ok is False:
                good = False
        R.ob('comparison of one content type', '%s %s (%d paths)' % (loc(f), name, len(vs)), good is True)
        # owned pointers of the operands may be unset: comparing must look first
        for st, v, node in nulls:
            if v[0] == 'fld' and v[1] in (L, Rr):
                fl = [x for x in P.recs[q]['fields'] if x['n'] == v[2]]
                if not fl or shape(P, fl[0]['t'])[0] != 'ptr':
                    continue
                ok = decide(st, ('T', v)) is True
                R.ob('owned pointer read in a comparison', '%s:%s %s' % (f['file'], node.get('l'), fmt(v)), ok)
                if not ok:
                    R.violate('%s:%s' % (f['file'], node.get('l')), 'unset-part-compared',
                              '%s reads through %s without knowing it is set; a default-constructed %s has it unset' % (
                                  name, fmt(v), q.rsplit('::', 1)[-1]), '%s|unset|%s' % (name, v[2]))
    R.floor('comparison of one content type', 20)
    R.floor('comparison of elements by kind', 13)


def ielement(R, P, f, I, L, Rr):
    name = 'element equality'
    I = Interp(P, hooks=I.hooks, max_states=8000)
    vs = verdicts(I, f, L, Rr)
    bykind = {}
    for st, ans in vs:
        k = refr.flag_isa(st.facts, L)
        bykind.setdefault(k, []).append((st, ans))
    if None in bykind and len(bykind) == 1:
        R.undecided(loc(f), 'element equality does not dispatch on the element kind in a way the analysis follows')
        return
    for k in KINDS:
        if k not in bykind:
            R.undecided(loc(f), 'no path for kind %s' % k)
            continue
        good = True
        for st, ans in bykind[k]:
            if ans is None:
                R.undecided(loc(f), 'a path returns no value the analysis follows')
                good = None
                continue
            kl, kr = refr.elkind(('addr', L)), refr.elkind(('addr', Rr))
            hl, hr = read(st, ('fld', L, 'hasValue_')), read(st, ('fld', Rr, 'hasValue_'))
            th, tr = decide(st, ('T', hl)), decide(st, ('T', hr))

            def fld(n):
                return ('fld', L, n), ('fld', Rr, n)

            def eqv(n):
                a, b = fld(n)
                return decide(st, mk_eq(('val', a), ('val', b)))
            parts = [
                ('kind', lambda s: decide(s, mk_eq(kr, refr.kc(k))) is True or decide(s, mk_eq(kl, kr)) is True,
                 lambda s: decide(s, mk_eq(kr, refr.kc(k))) is False),
                ('value presence', lambda s: th is not None and th == tr or decide(s, mk_eq(hl, hr)) is True,
                 lambda s: th is not None and tr is not None and th != tr or decide(s, mk_eq(hl, hr)) is False),
                ('attributes', lambda s: eqv('attributes_') is True, lambda s: eqv('attributes_') is False),
                ('meta', lambda s: eqv('meta_') is True, lambda s: eqv('meta_') is False),
                ('content', lambda s: eqv('data_') is True or th is False and tr is False,
                 lambda s: eqv('data_') is False and (th is not False or tr is not False)),
            ]
            if judge(R, f, name + ' (%s)' % k, st, ans, parts, ('never',), L, Rr) is False:
                good = False
        R.ob('comparison of elements by kind', '%s %s (%d paths)' % (loc(f), k, len(bykind[k])), good is True)

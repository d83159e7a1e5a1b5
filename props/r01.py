"""R01: what is acquired is released, once, by the call that belongs to it."""
import own
from front import loc, walk, strip_targs

RULE = 'released once'


def implicit(f):
    return bool(f.get('imp')) or bool(f.get('dft'))


def check(R, P):
    R.rule('Objects of new and new[], memory of malloc and strdup, compiled expressions (regcomp) and what a function of the '
           'repository answers or writes through a parameter of these are followed along every path of a function, the ones '
           'into its handlers included: on each, what was acquired is released once by the call that belongs to it, or handed '
           'on (answered, written through a parameter, kept in a member, given to an owner). A branch on the pointer or on '
           'the status of the acquisition decides whether there is anything to release.')
    R.rule('What a member is given is released by the destructor of the class, a member is not given another object before '
           'what it has is released, and an object whose destructor releases a member is not copied by a copy the compiler wrote.')
    sums, matter = own.program(P)
    members = {}      # class -> {'stores': [(member, kind, fn, node)], 'drops': {..}}
    n = {}
    exits = {}
    for u in sorted(matter):
        f = P.fns.get(u)
        if f is None or f.get('body') is None or '/test/' in f['file']:
            continue
        R.seen(f)
        bad = []

        def report(fn, node, key, text):
            bad.append(key)
            R.violate(loc(fn, node), RULE, '%s: %s' % (fn['q'][:120], text), '%s|%s' % (fn['b'], key))
        o = own.Own(P, sums, f, report).run()
        if o.over:
            R.undecided(loc(f), '%s: more paths than are followed' % f['q'][:100])
        R.ob('function', '%s %s' % (loc(f), f['q'][:100]), not bad and not o.over)
        for k, c in o.n.items():
            n[k] = n.get(k, 0) + c
        c = f.get('cls')
        if c and f.get('ck') == 'dtor':
            exits[c] = o.exits
        if c:
            m = members.setdefault(c, {'stores': [], 'drops': {}})
            for name, kind, node in o.stores:
                m['stores'].append((name, kind, f, node))
            for name, kind in o.drops:
                m['drops'].setdefault(name, set()).add((f.get('ck'), kind, f['n'], f['f']))
    for k, c in sorted(n.items()):
        R.counts[k] = [c, c]
    releasing = set()
    for c, m in sorted(members.items()):
        dtor = [f for f in P.by_class(c) if f.get('ck') == 'dtor' and f.get('body') is not None]
        called = {x.get('f') for d in dtor for x in walk(d['body']) if x.get('k') == 'call'}
        held = {}
        for name, kind, f, node in m['stores']:
            if kind == 'over':
                held.setdefault(name, []).append((f, node))
        for name in sorted({s[0] for s in m['stores']}):
            kinds = {s[1]: s for s in m['stores'] if s[0] == name and s[1] != 'over'}
            if not kinds:
                continue
            done = {k for t, k, fname, u in m['drops'].get(name, ()) if t == 'dtor' or u in called}
            for kind, (_, _, f, node) in sorted(kinds.items()):
                ok = kind in done
                R.ob('member', '%s %s::%s' % (loc(f, node), c[:80], name), ok)
                if not ok:
                    t = ('the destructor of the class does not release it' if not done else
                         'the destructor of the class releases it with %s' % own.CALLS[sorted(done)[0]])
                    R.violate(loc(f, node), RULE, '%s: %s is kept in %s, and %s' % (f['q'][:120], own.NAMES[kind], name, t),
                              '%s|member|%s|%s' % (strip_targs(c), name, kind))
            direct = any(t == 'dtor' for t, k, fname, u in m['drops'].get(name, ()))
            for d in dtor if direct else ():
                p = ('m', name)
                skip = [x for x, tested in exits.get(c, ()) if p not in x and not any(q[0] == 'm' and q != p for q in tested)]
                R.ob('destructor', loc(d), not skip)
                if skip:
                    R.violate(loc(d), RULE, '%s: %s is left unreleased on a path on which it may be held' % (d['q'][:120], name),
                              '%s|dtor|%s' % (strip_targs(c), name))
            for f, node in held.get(name, ()):
                if done:
                    R.violate(loc(f, node), RULE, '%s: %s is given another object before what it has is released' % (f['q'][:120], name),
                              '%s|over|%s' % (strip_targs(c), name))
        if any(t == 'dtor' or u in called for x in m['drops'].values() for t, k, fname, u in x):
            releasing.add(c)
    # classes that hold one of them by value copy it with them
    whole = set(releasing)
    for _ in range(4):
        for q, r in P.recs.items():
            if q not in whole and any(P.ty(x['t']).get('q') in whole and P.ty(x['t'])['k'] == 'rec' for x in r.get('fields', ())):
                fs = [f for f in P.by_class(q) if f.get('ck') in ('copy', 'move') and f.get('body') is not None
                      and not implicit(f)]
                if not fs:
                    whole.add(q)
    for f in P.fns.values():
        if f.get('body') is None or '/test/' in f['file']:
            continue
        for x in walk([f['body'], f.get('inits') or []]):
            if x.get('k') == 'ctor' and x.get('ck') in ('copy', 'move'):
                q = (x.get('q') or '').rpartition('::')[0]
                if q in whole:
                    g = P.fns.get(x.get('f'))
                    own_copy = g is not None and g.get('body') is not None and not implicit(g)
                    R.ob('copy', loc(f, x), own_copy)
                    if not own_copy:
                        R.violate(loc(f, x), RULE, '%s: a %s is copied as the compiler copies it, and both will release what it holds' % (
                            f['q'][:100], strip_targs(q)), '%s|copied|%s' % (f['b'], strip_targs(q)))
    for c in sorted(whole):
        R.ob('class that releases', c[:100])
    R.floor('function', 10)
    R.floor('class that releases', 1)

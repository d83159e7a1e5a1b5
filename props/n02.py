"""N02: what may be absent is asked for before it is read through."""
import life
import nul
from front import loc, walk_lam

RULE = 'absence'

# sites where another function has asked already; each was read
REVIEWED = {
    ('snowcrash::HeaderNameTokenChecker::getMessage', 'findNonValidCharInHeaderName|is dereferenced'):
        'asked for its message only after operator() has found such a character',
    ('snowcrash::SectionProcessor::assingReferredPayload', 'find|is dereferenced'):
        'both callers look the model up in the same table before',
    ('snowcrash::SectionProcessor::resolveNamedTypeBaseTableEntry', 'find|is dereferenced'):
        'the recursive call that reports no error has entered the type',
    ('(anonymous namespace)::key', 'key|is dereferenced'):
        'its caller asserts that the member has a key',
}


def check(R, P):
    R.rule('An iterator answered by a search, a pointer answered by a checked cast, by a search of the C library, by a function '
           'of the repository that answers null or the end on some path, or by an accessor of an owner that a constructor '
           'leaves empty, is read through (also: handed to a function that reads through it) only on paths that have '
           'compared it with null, or with the end of the very container searched. A pointer known to be null on the path '
           'is not read through. What is asserted counts as a condition of the call.')
    sums = life.program(P)
    n, needs = nul.program(P, sums)
    for k, why in sorted(REVIEWED.items()):
        R.rule('reviewed: %s (%s): %s' % (k[0], k[1].split('|')[0], why))
    callers = {}
    for f in P.fns.values():
        if f.get('body') is None:
            continue
        for x in walk_lam(P, f['body']):
            g = P.fns.get(x.get('f')) if isinstance(x.get('f'), str) else None
            if g is not None:
                callers.setdefault(g['b'], set()).add(f['b'])

    def reviewed(b, key, seen=()):
        """itself, or a helper called from reviewed functions only"""
        if (b, key) in REVIEWED:
            return True
        up = callers.get(b, set()) - {b}
        return bool(up) and b not in seen and all(reviewed(c, key, seen + (b,)) for c in up)
    counts = {}
    for f in P.fns.values():
        if f.get('body') is None or '/test/' in f['file']:
            continue
        R.seen(f)
        bad = []

        def report(fn, node, key, text):
            if reviewed(f['b'], key):
                R.ob('reviewed site', '%s %s' % (loc(f, node), key), True)
                return
            bad.append(key)
            R.violate(loc(f, node), RULE, '%s: %s' % (f['q'][:120], text), '%s|%s' % (f['b'], key))
        L = nul.run(P, sums, n, needs, f, report)
        if L.over:
            R.undecided(loc(f), '%s: more paths than are followed' % f['q'][:100])
        R.ob('function', '%s %s' % (loc(f), f['q'][:100]), not bad and not L.over)
        for k, v in L.cnt.items():
            counts[k] = counts.get(k, 0) + v
    for k, v in sorted(counts.items()):
        R.counts[k] = [v, v]
    R.counts['function that may answer nothing'] = [sum(1 for w in n.values() if w)] * 2
    R.floor('function', 1500)
    R.floor('found or not, and asked', 1000)

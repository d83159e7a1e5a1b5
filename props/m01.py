"""M01: nothing is used after the object it refers to has ended, moved or been moved from."""
import life
from front import loc

RULE = 'lifetime'


def check(R, P):
    R.rule('In every function, the place each reference, pointer and iterator kept in a variable (or by a loop over a range) '
           'points into is followed. Once an operation on that place may end it or move it elsewhere (growing, erasing, '
           'clearing or assigning a container by its own rules, resetting or assigning the owner, deleting, the end of '
           'the scope or of a temporary), the variable may not be used until it is set anew. What functions of the '
           'repository do to the containers and owners they are given counts as done by the call.')
    R.rule('An object moved from is not read, nor the object of an owner moved from, released or reset dereferenced, '
           'before it is given a value. A move made for an argument and a use in another are not in order.')
    R.rule('No function answers, and no member keeps, a reference, pointer or iterator to a local variable, a parameter '
           'taken by value, or a part of a temporary.')
    sums = life.program(P)
    counts = {}
    for f in P.fns.values():
        if f.get('body') is None or '/test/' in f['file']:
            continue
        R.seen(f)
        bad = []

        def report(fn, node, key, text):
            bad.append(key)
            R.violate(loc(f if fn is f else fn, node), RULE, '%s: %s' % (f['q'][:120], text), '%s|%s' % (f['b'], key))
        L = life.analyse(P, sums, f, report)
        if L.over:
            R.undecided(loc(f), '%s: more paths than are followed' % f['q'][:100])
        R.ob('function', '%s %s' % (loc(f), f['q'][:100]), not bad and not L.over)
        for k, n in L.obs.items():
            counts[k] = counts.get(k, 0) + n
    for k, n in sorted(counts.items()):
        R.counts[k] = [n, n]
    R.floor('function', 1500)
    R.floor('move', 100)

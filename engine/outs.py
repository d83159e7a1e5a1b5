"""What a function writes: its events read as text, loops kept as loops; octets and code points followed class by class."""
from absint import C, fmt, read, mentions, subst
import bits
from linrel import Lin, ring, plus

SILENT = ('store', 'finit', 'dtor', 'moved', 'movector', 'copyctor', 'own', 'downcast')
QUIET = ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', '(ctor)', 'data', 'c_str', 'length')


class Text:
    """reads the events of one path; `value(e)` says what a call prints, if it is one that prints"""
    def __init__(self, I, value):
        self.I, self.value = I, value
        self.delim = ()

    def tokens(self, ev, st=None):
        out, made = [], {}
        for e in ev:
            k = e[0]
            if k == 'loop':
                i = e[1]
                paths = [(kind, f, self.tokens(v), v, val) for kind, f, v, val in i['paths']]
                if any(p[2] for p in paths):
                    out.append(('?', 'an algorithm') if i.get('alg') else ('loop', i, paths))
                continue
            if k == 'out':
                out += self.lit(e[2])
                continue
            if k != 'call':
                if k not in SILENT:
                    out.append(('?', k))
                continue
            v = self.value(e)
            if v is not None:
                out.append(v)
                continue
            q, name = e[1], e[1].rsplit('::', 1)[-1]
            args = e[3]
            if q.startswith('std::ostream_iterator<'):
                if name == '(ctor)' and len(args) == 2 and args[1] != ('null',):
                    self.delim = self.lit(args[1])
                if name == 'operator=' and len(args) == 1:
                    a = args[0]
                    if a[0] == 'addr':
                        a = e[8][0] if len(e) > 8 else a
                    if a[0] == 'hv' or a[0] in ('out', 'ctor') or a[0] == 'call' and a[1] in ('std::copy', 'std::transform') or \
                            a[0] == 'call' and ('ostream_iterator' in a[1] or any(self.same(x, e[2]) for x in a[3:])):
                        continue            # the iterator itself is assigned
                    out += self.lit(a)
                    out += self.delim
                elif name not in ('operator*', 'operator++', '(ctor)', '(dtor)'):
                    out.append(('?', name))
                continue
            if name in ('snprintf', 'sprintf') and len(args) >= 2:
                a = list(args)
                n = a.pop(1) if name == 'snprintf' else None
                made[a[0]] = ('fmt', a[1], tuple(a[2:]), n)
                continue
            if name == 'copy' and q.startswith('std::') and len(args) == 3:
                out.append(self.copied(args, made))
                continue
            if name in ('put',) and 'basic_ostream' in q and len(args) == 1:
                out += self.lit(args[0])
                continue
            if name == 'write' and 'basic_ostream' in q and len(args) == 2:
                s, n = args
                if s[0] == 's' and n == C(len(s[1])):
                    out += self.lit(s)
                else:
                    out.append(('?', 'write'))
                continue
            if name in QUIET:
                continue
            if 'basic_ostream' in q or any(self.stream(a) for a in args):
                out.append(('?', name))
            elif e[2] is None and not q.startswith('std::') and self.I is not None and not self.pure(e):
                out.append(('?', name))
        return out

    def same(self, x, ob):
        """the iterator itself, as handed on"""
        return ob is not None and ob[0] == 'addr' and (x[0] == 'hv' and x[2] == ob[1] or x == ('addr', ob[1]) or
                                                       x[0] == 'ctor' and 'ostream_iterator' in x[1] or
                                                       x[0] == 'out' and 'ostream_iterator' in str(x[1])[:60])

    def pure(self, e):
        return not any(x[0] in ('addr', 'L') for x in e[3])

    def stream(self, a):
        return mentions(a, 'out')

    def lit(self, v):
        if v[0] == 'c':
            return [('b', v[1] & 255)]
        if v[0] == 's':
            return [('b', b) for b in v[1].encode('latin-1', 'replace')]
        if v[0] == 'ctor' and v[1] == 'std::basic_string::(ctor)' and len(v) > 3 and v[3][0] == 'c':
            return [('many', v[3][1] & 255, v[2])]
        if v[0] == 'mkstr' and len(v) >= 3 and v[2][0] == 'c':
            return [('many', v[2][1] & 255, v[1])]
        if 'std::flush' in str(v)[:60]:
            return []
        if 'std::endl' in str(v)[:60]:
            return [('b', 10)]
        return [('v', v)]

    def copied(self, args, made):
        src, end, to = args
        if src in made:
            if end[0] == 'it' and end[1] == ('at', src) and end[2][0] == 'c':
                return made[src] + (end[2][1],)
            return ('?', 'copy')
        if src[0] == 'it' and end == ('it', src[1], ('size', src[1])) and src[2] == C(0):
            return ('v', src[1])
        if src[0] == 's' and end[0] == 'it' and end[1] == ('at', src) and end[2] == C(len(src[1])):
            return ('bs', tuple(src[1].encode('latin-1')))
        return ('?', 'copy')


def whole(i, cont):
    """the loop visits each element of `cont`, from the first to the last"""
    r = i['range']
    return r is not None and r[1] == cont and r[2] == C(0) and r[3] == ('size', cont) and not i['exits'] and \
        all(p[0] == 'norm' for p in i['paths'])


def printf(f, args, val):
    """the characters of a format with hexadecimal or plain conversions; None where it is not understood"""
    out, i, k = [], 0, 0
    while i < len(f):
        if f[i] != '%':
            out.append(f[i])
            i += 1
            continue
        i += 1
        if f[i:i + 1] == '%':
            out.append('%')
            i += 1
            continue
        zero = f[i:i + 1] == '0'
        i += zero
        w = ''
        while f[i:i + 1].isdigit():
            w += f[i]
            i += 1
        for m in ('hh', 'h', 'll', 'l'):
            if f.startswith(m, i):
                i += len(m)
                break
        else:
            m = ''
        c = f[i:i + 1]
        i += 1
        if c not in tuple('xXdiuo') or k >= len(args):
            return None
        n = val(args[k])
        k += 1
        if n is None:
            return None
        wd = {'hh': 8, 'h': 16, '': 32}.get(m, 64)
        n &= (1 << wd) - 1
        if c in 'di' and n >> (wd - 1):
            n -= 1 << wd
        s = {'x': '%x', 'X': '%X', 'o': '%o'}.get(c, '%d') % n
        out.append(s.rjust(int(w or 0), '0' if zero else ' '))
    return ''.join(out)


def delta(i, facts):
    return {a: v for a, v in facts.items() if i['prefacts'].get(a) != v and a[0] not in ('live', 'forall')}


class Cases:
    """evaluates the paths of a loop body for one value of its input"""
    def __init__(self, i, paths, term, consts=()):
        self.i, self.paths, self.term, self.consts = i, paths, term, dict(consts)

    def facts(self, f):
        return [(a, v) for a, v in delta(self.i, f).items() if mentions(a, self.term)]

    def breaks(self):
        """constants the input is compared with"""
        out = set()
        for p in self.paths:
            for a, _ in self.facts(p[1]):
                for x in consts(a):
                    out.add(x)
        return out

    def at(self, bit):
        """(paths taken, evaluator) for an input given by its bits"""
        B = bits.Bits(dict(self.consts, **{}) | {self.term: bit})
        live = []
        for p in self.paths:
            r = True
            for a, v in self.facts(p[1]):
                h = B.holds(a)
                if not isinstance(h, bool):
                    r = None
                elif h != v:
                    r = False
                    break
            if r is None:
                return None, B
            if r:
                live.append(p)
        return live, B


def consts(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'c' and isinstance(t[1], int):
            yield t[1]
        else:
            for x in t:
                yield from consts(x)


def chars(tokens, B, raw):
    """the octets a path writes for a given input: list of ints, ('raw',) for the input itself; None where not understood"""
    out = []
    for t in tokens:
        if t[0] == 'b':
            out.append(t[1])
        elif t[0] == 'bs':
            out += list(t[1])
        elif t[0] == 'v':
            n = bits.value(B.ev(t[1]))
            if n is None:
                return None
            out.append(n & 255)
        elif t[0] == 'fmt':
            f, args, size, n = t[1:]
            if f[0] != 's' or size is not None and size[0] != 'c':
                return None
            s = printf(f[1], args, lambda x: bits.value(B.ev(x)))
            if s is None:
                return None
            if size is not None:
                s = s[:max(size[1] - 1, 0)] + '\0'
            else:
                s += '\0'
            if n > len(s):
                out.append(None)      # more is copied than was written
                s = s.ljust(n, '\0')
            out += list(s[:n].encode('latin-1'))
        elif t[0] == 'raw':
            out.append(('raw', t[1]))
        else:
            return None
    return out


# ---- lists: what stands between elements

def norm(t):
    """containers of boost as those of the standard library"""
    if isinstance(t, tuple) and t:
        if t[0] == 'call' and len(t) == 3 and isinstance(t[1], str) and t[1].startswith('boost::container::'):
            if t[1].endswith('::size'):
                return ('size', norm(t[2]))
            if t[1].endswith('::empty'):
                return ('eq', C(0), ('size', norm(t[2])))
        if t[0] == 'trunc' and t[3][0] in ('add', 'size', 'sum', 'op', 'call'):
            return norm(t[3])
        x = tuple(norm(y) if isinstance(y, tuple) else y for y in t)
        if x[0] == 'T' and len(x) == 2 and x[1][0] in ('eq', 'lt', 'not'):
            return x[1]
        if x[0] == 'add' and x[2] == 0:
            return x[1]
        return x
    return t


def nfacts(facts):
    out = []
    for a, v in facts.items() if isinstance(facts, dict) else facts:
        if a[0] in ('live', 'forall'):
            continue
        a = norm(a)
        while a[0] in ('not', 'T') and isinstance(a[1], tuple) and (a[0] == 'not' or a[1][0] in ('eq', 'lt', 'not', 'T')):
            if a[0] == 'not':
                v = not v
            a = a[1]
        out.append((a, v))
    return out


def excluded(facts):
    """the facts exclude each other"""
    ok = []
    for a, v in facts:
        if a[0] in ('eq', 'lt', 'T') and not mentions(a, 'str'):
            c = const_truth(a)
            if c is not None:
                if c != v:
                    return True
                continue
            ok.append((a, v))
    rows = dict(ok)
    if any(rows.get(a) != v for a, v in ok):
        return True
    L = Lin(rows, unsigned=lambda t: t[0] in ('size', 'ix'))
    return L.bad()


def const_truth(a):
    if a[0] == 'T' and a[1][0] == 'c':
        return bool(a[1][1])
    if a[0] in ('eq', 'lt') and a[1][0] == 'c' and a[2][0] == 'c':
        return a[1][1] == a[2][1] if a[0] == 'eq' else a[1][1] < a[2][1]
    return None


WHERE = ('only', 'first', 'inner', 'last')


class Listing:
    """a loop over the elements of a container: which of its paths are taken for the only, first, an inner and the last element"""
    def __init__(self, i, cont, paths, before):
        self.i, self.paths, self.n, self.ix = i, paths, ('size', cont), i['ix']
        self.before = nfacts(before)
        self.inv = self.carried()

    def where(self, w):
        ix, n = self.ix, self.n
        last = ('lt', ('add', ix, 1), n)
        return [(('lt', ix, n), True),
                (('eq', ix, C(0)), w in ('only', 'first')), (('lt', C(0), ix), w in ('inner', 'last')),
                (last, w in ('first', 'inner'))]

    def carried(self):
        """variables the loop carries along: [(variable, its value before, [(position facts, value)])]"""
        out = []
        i = self.i
        hvs = {}
        for _, s in i['ends']:
            pass
        for p in self.paths:
            for a in p[1]:
                for h in hv_of(a, self.ix[1]):
                    hvs.setdefault(h[2], h)
        for l, h in sorted(hvs.items(), key=repr):
            v0 = norm(read(i['prestore'], l))
            ends = [(f, norm(read(s, l))) for f, s in i['ends']]
            if v0 is None or not ends:
                continue
            # a flag: one value at the first element, another later
            if v0[0] in ('c', 's') and all(e == ends[0][1] and e[0] in ('c', 's') for _, e in ends):
                out.append((h, [([(('eq', self.ix, C(0)), True)], v0), ([(('lt', C(0), self.ix), True)], ends[0][1])]))
                continue
            for cand in self.lines(h, v0):
                if all(self.stays(f, e, h, cand) for f, e in ends):
                    out.append((h, [(rows + [(('eq', h, v), True)], None) for rows, v in cand]))
                    break
        return out

    def lines(self, h, v0):
        """a counter running down or up, all the way or to a bound"""
        ks = set()
        for p in self.paths:
            for a, _ in nfacts(delta(self.i, p[1])):
                if h in a[1:]:
                    ks |= set(consts(a))
        for d in (-1, 1):
            yield [([], self.line(v0, d))]
        for k in sorted(x + y for x in ks for y in (0, 1)):
            yield [([(('lt', self.line(v0, -1), C(k)), False)], self.line(v0, -1)),
                   ([(('lt', C(k), self.line(v0, -1)), False), (('lt', v0, C(k)), False)], C(k)),
                   ([(('lt', C(k), v0), False)], v0)]

    def line(self, v0, d):
        return ('sum', v0, ('neg', self.ix)) if d < 0 else ('sum', v0, self.ix)

    def stays(self, f, e, h, cand):
        """after an iteration one of the forms holds again, or there is no further iteration"""
        known = nfacts(delta(self.i, f))
        for w in ('first', 'inner'):
            for rows0, v in cand:
                rows = self.before + self.where(w) + known + rows0 + [(('eq', h, v), True)]
                if excluded(rows):
                    continue
                if not any(self.implied(rows, r2, e, v2) for r2, v2 in cand):
                    return False
        return True

    def implied(self, rows, r2, e, v2):
        up = lambda t: subst(t, self.ix, ('add', self.ix, 1))
        L = Lin(dict(r for r in rows if r[0][0] in ('eq', 'lt')), unsigned=lambda t: t[0] in ('size', 'ix'))

        def ge0(f):
            L.bounds()
            return L.implied(f)
        for (op, a, b), v in r2:
            x, y = L.form(up(a)), L.form(up(b))
            f = plus(y, x, -1)                    # y - x
            f = (f[0], f[1] - 1) if v else ({t: -c for t, c in f[0].items()}, -f[1])
            if not ge0(f):
                return False
        d = plus(L.form(e), L.form(up(v2)), -1)
        return ge0(d) and ge0(({t: -c for t, c in d[0].items()}, -d[1]))

    def taken(self, w):
        """(path, carried values as known there, whether something carried is not understood)"""
        alts = [([], {})]
        for h, vs in self.inv:
            alts = [(r + r2, dict(m, **{}) | ({h: c} if c is not None else {})) for r, m in alts for r2, c in vs]
        out = []
        for rows0, flags in alts:
            for p in self.paths:
                rows = self.before + self.where(w) + rows0
                known = nfacts(delta(self.i, p[1]))
                for h, c in flags.items():
                    known = nfacts([(subst(a, h, c), x) for a, x in known])
                left = any(h not in [x for x, _ in self.inv] for a, _ in known for h in hv_of(a, self.ix[1]))
                if not excluded(rows + known):
                    out.append((p, flags, left))
        return out


def hv_of(t, n):
    out = []
    if isinstance(t, tuple) and t:
        if t[0] == 'hv' and t[1] == n and t[2][0] == 'lv':
            return [t]
        for x in t:
            if isinstance(x, tuple):
                out += hv_of(x, n)
    return out


def put(tokens, flags):
    """texts the loop carries along, as known there"""
    out = []
    for t in tokens:
        if t[0] == 'v' and t[1] in flags:
            c = flags[t[1]]
            out += [('b', b) for b in c[1].encode('latin-1', 'replace')] if c[0] == 's' else [('b', c[1] & 255)]
        else:
            out.append(t)
    return out


def between(L, shape):
    """runs what each element writes through an automaton; `shape(tokens)` -> list of 'sep' and 'item'.
    Answers None, or what is wrong with the list"""
    moves = {}
    for w in WHERE:
        moves[w] = set()
        for p, flags, left in L.taken(w):
            s = shape(put(p[2], flags))
            if s is None:
                return '?'
            moves[w].add((tuple(s), left))
    if any(left for w in WHERE for _, left in moves[w]):
        return '?'
    bad = []

    def go(states, w):
        out = set()
        for s in states:
            for m, _ in moves[w]:
                x = s
                for t in m:
                    x = {('start', 'item'): 'done', ('done', 'sep'): 'open', ('open', 'item'): 'done'}.get((x, t))
                    if x is None:
                        bad.append('%s %s element' % ('no separator before an' if t == 'item' else 'a separator too many at the', {
                            'only': 'only', 'first': 'first', 'inner': 'inner', 'last': 'last'}[w]))
                        break
                if x is not None:
                    out.add(x)
        return out

    def final(states):
        if 'open' in states:
            bad.append('a separator behind the last element')
        if 'start' in states:
            bad.append('an element is not written')
    final(go({'start'}, 'only'))
    a = go({'start'}, 'first')
    for _ in range(4):
        final(go(a, 'last'))
        a = a | go(a, 'inner')
    return bad[0] if bad else None

"""Y01: the text written for a value is YAML that reads back as that value."""
import refr
import bits
from absint import Interp, Budget, C, fmt, mentions
from front import loc, walk_lam
from linrel import ring as ring_of
from outs import Text, Listing, Cases, whole, chars, between, nfacts, excluded, delta
from j01 import SO, KINDS, WORDS, kind, has, text, unread, show, same_stream
from u01 import numbers

RULE = 'yaml'
FILE = 'utils/so/YamlIo.'
UTF = 'drafter::utils::utf8::'
SHORT = {'0': 0, 'a': 7, 'b': 8, 't': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, 'e': 27, '"': 34, '/': 47, '\\': 92, 'N': 0x85,
         '_': 0xA0, 'L': 0x2028, 'P': 0x2029, ' ': 32, '\t': 9}
PLAIN = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_/$^()\\;')
RESERVED = ('null', 'Null', 'NULL', 'true', 'True', 'TRUE', 'false', 'False', 'FALSE')
TOP = 0x10FFFF


def check(R, P):
    R.rule('Below the root a scalar and an empty collection follow a blank, a collection with elements a line break; elements '
           'stand on lines of their own, indented by a multiple of the depth, and their values one level deeper or more. '
           'A line break stands between two elements and nowhere else. Every element is written, once, in order.')
    R.rule('null, true and false are written as these words, a number as its text, a string in double quotes; a key in quotes, or '
           'as it stands where every octet is one YAML takes as it stands in a key and the key is neither empty nor a word for null or a boolean.')
    R.rule('In quotes each code point is written as text YAML reads as that code point; one YAML does not take in a file, a quote, '
           'a backslash or a line break never as it stands. Decided path by path at the ends of every range of code points the '
           'text, or YAML, tells apart.')
    fs = [f for f in P.fns.values() if FILE in f['file'] and f.get('body') is not None]
    rec = {f['q'] for f in fs if any(SO + 'Null' in t and SO + 'Array' in t for t in P.ptypes(f))}
    M = Machine(R, P, rec)
    for f in sorted(fs, key=lambda f: (f['q'], f['line'])):
        if not kind(P, f) and f['q'] not in rec and scans(P, f):
            M.escaper(f)
    for f in sorted(fs, key=lambda f: (f['q'], f['line'])):
        k = kind(P, f)
        if k:
            M.printer(f, k)
    for f in sorted(fs, key=lambda f: (f['q'], f['line'])):
        if f['q'] in rec:
            M.handing_on(f)
    R.floor('value', 7)
    R.floor('string', 1)
    R.floor('list', 4)
    R.floor('key', 2)
    R.floor('handing on', 2)


def scans(P, f):
    return any('utf8::input_iterator' in P.ty(x['t'])['s'] for x in walk_lam(P, f['body']) if isinstance(x, dict) and x.get('k') in ('ctor', 'ref') and 't' in x)


class Machine:
    def __init__(self, R, P, rec):
        self.R, self.P, self.rec = R, P, rec
        self.esc = {}           # function -> (positions of the arguments that are text, its parameters)
        self.consts = numbers(P)
        self.recb = {r.split('<')[0] for r in rec}
        self.utf = {f['b'] for f in P.fns.values() if 'utf8::input_iterator' in f['q']} | {UTF + 'encode', UTF + 'operator!=', UTF + 'operator=='}

    def run(self, f, more=()):
        I = Interp(self.P, hooks=dict(refr.hooks(), bytes=True, ignore_sign=False), noinline=self.recb | self.utf | set(self.esc), max_states=900)
        return I, Text(I, self.value), I.run(f)

    def value(self, e):
        q = e[1]
        b = q.split('<')[0]
        if b in self.recb or q.startswith('std::visit'):
            return ('val', e[3], e)
        if b == UTF + 'encode':
            return ('raw', e[3][0]) if e[3] else ('?', 'encode')
        if UTF in q:
            return ('b0',)                # no text
        if b in self.esc:
            x = self.cover(self.esc[b], e[3])
            return ('esc', x) if x else ('?', 'a string escaped')
        return None

    @staticmethod
    def cover(how, args):
        """the text an escaping function is given"""
        if len(how) == 1:
            return args[how[0]] if how[0] < len(args) else None
        if max(how) >= len(args):
            return None
        return span(args[how[0]], args[how[1]])

    def tokens(self, T, ev):
        return clean(T.tokens(ev))

    # ---- code points in quotes

    def escaper(self, f):
        self.R.seen(f)
        try:
            I, T, outs = self.run(f)
        except Budget:
            self.R.undecided(loc(f), '%s: too many paths' % f['q'])
            return
        names = [('obj', p.get('n')) for p in f['ps']]
        how = None
        for o in outs:
            toks = self.tokens(T, o.st.ev)
            toks = [t for t in toks if t != ('b', 34)]
            if o.kind == 'throw' or len(toks) != 1 or toks[0][0] != 'loop':
                return
            x = self.points(toks[0], o.st.ev)
            if x[0] and x[0].startswith('?'):
                self.R.undecided(loc(f), '%s: %s' % (f['q'][:80], x[0][1:]))
                return
            bad, src = x
            if src in names:
                h = (names.index(src),)
            elif src[0] == 'pair' and src[1] in names and src[2] in names:
                h = (names.index(src[1]), names.index(src[2]))
            else:
                return
            if how not in (None, h):
                return
            how = h
            if bad:
                self.R.violate(loc(f), RULE, '%s: %s' % (f['q'][:80], bad), 'string|' + bad)
            self.R.ob('string', loc(f), not bad)
            if len([t for t in self.tokens(T, o.st.ev) if t == ('b', 34)]):
                return          # with the quotes: read in place
        if how:
            self.esc[f['b']] = how

    def points(self, t, pre):
        """(what is wrong with the text written for the code points, the text they come from); '?…' where it is not understood"""
        i, paths = t[1], t[2]
        n = i['ix'][1]
        if i['exits'] or any(p[0] != 'norm' for p in paths):
            return '?whether every code point is written', None
        its = {}
        for e in list(i['pre']) + list(pre):
            if e[0] == 'call' and UTF + 'input_iterator' in e[1] and e[1].endswith('(ctor)') and e[2] and e[2][0] == 'addr':
                its[e[2][1]] = e[3], e[4]
        where = None
        for p in paths:
            conds = [(a, v) for a, v in delta(i, p[1]).items() if a[0] == 'T' and a[1][0] == 'call' and a[1][1] in (UTF + 'operator!=', UTF + 'operator==')]
            if len(conds) != 1:
                return '?whether every code point is written', None
            a, v = conds[0]
            if v != a[1][1].endswith('!='):
                return '?whether every code point is written', None
            x = [y for y in a[1][3:] if y[0] == 'hv' and y[1] == n]
            z = [y for y in a[1][3:] if y[0] == 'ctor']
            if len(x) != 1 or len(z) != 1 or x[0][2] not in its:
                return '?whether every code point is written', None
            if where not in (None, (x[0], z[0])):
                return '?whether every code point is written', None
            where = x[0], z[0]
            other = [a for a, _ in delta(i, p[1]).items() if a != conds[0][0] and mentions(a, x[0]) and not mentions(a, ('call', UTF + 'input_iterator::operator*', x[0]))]
            if other:
                return '?whether every code point is written', None
        hv, endc = where
        begin = its[hv[2]][0]
        stop = endc[2:]
        src = None
        if len(begin) == 2 and len(stop) == 2 and begin[1] == stop[0] == stop[1]:
            src = span(*begin) or ('pair', begin[0], begin[1])
        elif len(begin) == 1 and len(stop) == 2 and stop[0] == stop[1] and stop[0] == ('it', begin[0], ('size', begin[0])):
            src = begin[0]
        if src is None:
            return '?which text is escaped', None
        for p in paths:
            step = 0
            for e in p[3]:
                if e[0] == 'call' and e[2] == ('addr', hv[2]) and UTF in e[1]:
                    m = e[1].rsplit('::', 1)[-1]
                    if m == 'operator++':
                        step += 1
                    elif m == 'operator*' and step:
                        return '?which code point is written', None
                    elif m not in ('operator*', 'operator->'):
                        return '?which code point is written', None
            if step != 1:
                return ('a code point is left out' if step else 'a code point is written over and over'), src
        c = ('at', ('call', UTF + 'input_iterator::operator*', hv))
        S = Cases(i, paths, c, self.consts)
        bad = None
        for n in points(S.breaks()):
            live, B = S.at(bits.const(n))
            if live is None or len(live) != 1:
                return '?how the code point %X is written' % n, src
            have = self.spelt(live[0][2], B)
            if have is None:
                return '?what is written for the code point %X' % n, src
            got = unquote(have)
            if got != [n] and bad is None:
                bad = 'the code point %X is written as %s, which reads as %s' % (
                    n, ' '.join('raw %X' % x[1] if isinstance(x, tuple) else show([x]) for x in have), 'no YAML' if got is None else
                    ' '.join('%X' % x for x in got) or 'nothing')
        return bad, src

    def spelt(self, toks, B):
        out = []
        for t in toks:
            if t[0] == 'raw':
                n = bits.value(B.ev(t[1]))
                if n is None:
                    return None
                out.append(('raw', n))
                continue
            x = chars([t], B, None)
            if x is None:
                return None
            out += x
        return out

    # ---- values

    def printer(self, f, k):
        R = self.R
        R.seen(f)
        try:
            I, T, outs = self.run(f)
        except Budget:
            R.undecided(loc(f), '%s: too many paths' % f['q'])
            return
        data = ('fld', ('obj', f['ps'][0].get('n') or 'value'), 'data')
        depth = depths(outs)
        doubt, ok = False, True
        if depth is None:
            R.undecided(loc(f), '%s: what tells how deep a value is' % f['q'][:80])
            return
        for o in outs:
            facts = yfacts(o.st.facts)
            if excluded(facts):
                continue
            toks = self.tokens(T, o.st.ev)
            below = not excluded(facts + [(('lt', C(0), depth), True)])
            root = not excluded(facts + [(('eq', C(0), depth), True)])
            bad = None
            if o.kind == 'throw':
                bad = '?raises'
            if below and not bad:
                bad = self.whole(k, toks, facts + [(('lt', C(0), depth), True)], data, depth, True, o.st.ev)
            if root and not bad:
                bad = self.whole(k, toks, facts + [(('eq', C(0), depth), True)], data, depth, False, o.st.ev)
            if bad and bad.startswith('?'):
                doubt = True
                R.undecided(loc(f), '%s: %s' % (f['q'][:80], bad[1:]))
            elif bad:
                ok = False
                R.violate(loc(f), RULE, '%s (%s): %s' % (f['q'][:80], k, bad), '%s|%s' % (k, bad))
        R.ob('value', '%s %s' % (loc(f), k), ok and not doubt)

    def whole(self, k, toks, facts, data, depth, below, ev):
        q = next((t for t in toks if t[0] == '?'), None)
        if q:
            return '?what %s writes' % q[1]
        n = ('size', data)
        lead = 0
        while lead < len(toks) and toks[lead] in (('b', 32), ('b', 10)):
            lead += 1
        head, body = [t[1] for t in toks[:lead]], toks[lead:]
        while body and body[-1] in (('b', 32),) and k not in ('Object', 'Array'):
            body = body[:-1]
        flow = k in ('Object', 'Array') and [t[1] for t in body if t[0] == 'b'] == list(b'{}' if k == 'Object' else b'[]') and len(body) == 2
        if k in ('Object', 'Array') and not flow:
            if body and body[0][0] == 'b' and chr(body[0][1]) in '{[':
                return '?a collection in brackets'
            if not excluded(facts + [(('eq', C(0), n), True)]):
                if not body:
                    return 'writes nothing where there is no element'
                return 'writes nothing where there is no element' if body[0][0] == 'loop' and body[0][1]['range'] is not None else '?a collection without elements'
            if len(body) != 1 or body[0][0] != 'loop':
                return '?how the elements are written' if any(t[0] == 'loop' for t in body) else 'leaves out the elements'
            if below and 10 not in head:
                return 'a collection below the root does not begin on a line of its own'
            if head and head[-1] == 32:
                return 'the first element is indented otherwise than the next'
            return self.listing(k, body[0], facts, data, depth, below)
        if below and not head:
            return 'no blank before the value'
        if 10 in head and below:
            return '?a scalar on a line of its own'
        if flow:
            return None if excluded(facts + [(('lt', C(0), n), True)]) else 'leaves out the elements'
        if k in WORDS:
            return None if body == [('b', b) for b in WORDS[k]] else unread(body) + 'writes %s' % text(body)
        if k == 'Number':
            return None if body == [('v', data)] else ('?' if any(t[0] in ('v', 'loop') for t in body) and len(body) == 1 else '') + 'writes %s' % text(body)
        return self.quoted(body, data, ev)

    def quoted(self, toks, cont, ev):
        if len(toks) < 2 or toks[0] != ('b', 34) or toks[-1] != ('b', 34):
            if toks == [('v', cont)]:
                return 'writes %s as it stands' % fmt(cont)
            return ('?' if any(t[0] in ('v', 'many', 'fmt', 'bs', 'loop') for t in toks) and ('b', 34) not in toks else '') + 'writes %s' % text(toks)
        mid = toks[1:-1]
        if len(mid) == 1 and mid[0][0] == 'esc':
            x = mid[0][1]
            return None if x == cont else 'writes another text than %s' % fmt(cont)
        if len(mid) == 1 and mid[0][0] == 'loop':
            bad, src = self.points(mid[0], ev)
            if bad and bad.startswith('?'):
                return bad
            if src != cont:
                return '?which text is written'
            self.R.ob('string', loc(mid[0][1]['fn'], {'l': mid[0][1]['line']}), not bad)
            return bad
        if len(mid) == 1 and mid[0][0] == 'v':
            return 'writes %s as it stands' % fmt(mid[0][1]) if mid[0][1] == cont else '?what is written in quotes'
        return '?what is written in quotes' if mid else 'writes nothing in quotes'

    # ---- collections

    def listing(self, k, t, facts, data, depth, below):
        i = t[1]
        if not whole(i, data):
            return '?whether every element is written' if i['range'] is None else \
                'writes not every element, or not in order' if i['range'][1] == data and i['range'][2][0] == 'c' and not i['exits'] \
                and all(p[0] == 'norm' for p in t[2]) else '?which elements are written'
        el = ('elem', data, i['ix'])
        val = ('fld', el, 'second') if k == 'Object' else el
        res = {'bad': None, 'in': set()}

        def shape(toks, p=None):
            out = []
            toks = list(toks)
            start = True
            while toks:
                x = toks[0]
                if x == ('b', 10):
                    out.append('sep')
                    toks = toks[1:]
                    continue
                ind, m = indentation(toks, depth, i)
                if ind is None:
                    res['bad'] = '?how far an element is indented'
                    return None
                toks = toks[m:]
                if not toks or toks[0] not in ((('b', 34), ('v', ('fld', el, 'first'))) if k == 'Object' else (('b', 45),)):
                    res['bad'] = unread(toks) + '%s is written as %s' % ('a member' if k == 'Object' else 'an element', text(toks))
                    return None
                if ind == (0, -1):
                    res['bad'] = 'elements of different depth are indented alike'
                    return None
                if below and ind[0] + ind[1] <= 0:
                    res['bad'] = 'elements below the root are not indented'
                    return None
                if not below and ind[1] == 0 and ind[0] != 0:
                    res['bad'] = '?how far an element is indented'
                    return None
                res['in'].add(ind if below else 0)
                if k == 'Object':
                    if ('b', 58) not in toks:
                        res['bad'] = ('' if toks[1:] and toks[-1][0] == 'val' and toks[0][0] == 'v' and len(toks) == 2 else unread(toks)) + 'a member is written as %s' % text(toks)
                        return None
                    c = toks.index(('b', 58))
                    key = toks[:c]
                    if key != [('v', ('fld', el, 'first'))]:
                        b = self.quoted(key, ('fld', el, 'first'), ())
                        if b:
                            res['bad'] = b
                            return None
                    toks = toks[c + 1:]
                else:
                    if toks[:1] != [('b', 45)]:
                        res['bad'] = unread(toks) + 'an element is written as %s' % text(toks)
                        return None
                    toks = toks[1:]
                if not toks or toks[0][0] != 'val':
                    res['bad'] = unread(toks) + 'an element is written as %s' % text(toks)
                    return None
                b = self.deeper(toks[0], val, depth, 1)
                if b:
                    res['bad'] = b
                    return None
                out.append('item')
                toks = toks[1:]
            return out
        for p in t[2] if below else ():
            toks = p[2]
            while toks and toks[0] == ('b', 10):
                toks = toks[1:]
            ind, m = indentation(toks, depth, i)
            deep = facts + yfacts(p[1]) + [(('lt', C(1 << 20), depth), True)]
            if ind is not None and ind[1] == 0 and toks[m:] and toks[m] in (('b', 34), ('b', 45), ('v', ('fld', el, 'first'))) and not excluded(deep):
                return 'elements of different depth are indented alike'
        bad = between(Listing(i, data, t[2], facts), shape)
        bad = res.get('bad') or ('?what stands between the elements' if bad == '?' else bad)
        if not bad and len(res['in']) > 1:
            bad = 'elements are indented differently'
        if not bad and k == 'Object':
            bad = self.keys(t, ('fld', el, 'first'))
        self.R.ob('list', '%s%s' % (loc(i['fn'], {'l': i['line']}), ' below the root' if below else ''), not bad)
        return bad

    def deeper(self, t, val, depth, least):
        parts = list(t[1])
        for a in t[1]:
            if a[0] == 'ctor':
                parts += a[2:]
        if val not in parts:
            return 'writes another value than that of the element'
        ks = [offset(a, depth) for a in parts if mentions(a, depth)]
        ks = [x for x in ks if x is not None]
        if not ks:
            return '?how deep the value of an element is' if any(mentions(a, depth) for a in parts) else 'the value of an element is not written deeper than the element'
        if min(ks) < least:
            return 'the value of an element is not written deeper than the element'
        return None

    def keys(self, t, key):
        """a key as it stands: only octets YAML takes so, and no word for something else"""
        i = t[1]
        bad = None
        for p in t[2]:
            if ('v', key) not in p[2]:
                continue
            facts = yfacts(p[1])
            if excluded(facts):
                continue
            odd = [a for a, _ in facts if mentions(a, key) and not plain(a, key)]
            b = None
            if not excluded(facts + [(('eq', C(0), ('size', key)), True)]):
                b = 'an empty key is written as it stands'
            for w in RESERVED:
                if not b and not any(a in (('eq', key, ('s', w)), ('eq', ('s', w), key)) and v is False for a, v in facts):
                    b = 'the key %s is written as it stands' % w
            allow = self.allowed(p, key)
            if allow is None:
                return '?which keys are written as they stand'
            n = next((n for n in range(256) if n in allow and n not in PLAIN), None)
            if not b and n is not None:
                b = 'a key with the octet %02X is written as it stands' % n
            if b:
                if odd:
                    return '?which keys are written as they stand'
                bad = bad or b
        self.R.ob('key', loc(i['fn'], {'l': i['line']}), not bad)
        return bad

    def allowed(self, p, key):
        """octets that may stand in the key on a path"""
        out = set(range(256))
        known = [(a, v) for a, v in p[1].items() if a[0] == 'forall' and mentions(a, key)]
        for e in p[3]:
            if e[0] != 'loop' or e[1]['range'] is None or e[1]['range'][1] != key:
                continue
            j = e[1]
            done = any(v is True and a[1] == j['ix'] and a[2] == ('lt', j['ix'], ('size', key)) for a, v in known)
            if not done or j['range'][2] != C(0) or j['range'][3] != ('size', key):
                continue
            S = Cases(j, [(x[0], x[1]) for x in j['paths'] if x[0] in ('norm', 'cnt')], ('elem', key, j['ix']), self.consts)
            keep = set()
            for n in range(256):
                live, B = S.at(bits.const(n - 256 if n > 127 else n))
                if live is None or live:
                    keep.add(n)
            out &= keep
        for a, v in known:
            el = ('elem', key, a[1])
            if not mentions(a[2], el):
                continue
            for n in list(out):
                h = bits.Bits(dict(self.consts) | {el: bits.const(n - 256 if n > 127 else n)}).holds(a[2])
                if isinstance(h, bool) and h != v:
                    out.discard(n)
        return out

    # ---- any kind of value

    def handing_on(self, f):
        R, P = self.R, self.P
        R.seen(f)
        try:
            I, T, outs = self.run(f)
        except Budget:
            R.undecided(loc(f), '%s: too many paths' % f['q'])
            return
        ok = True
        v = next((('obj', p['n']) for p, t in zip(f['ps'], P.ptypes(f)) if SO + 'Null' in t), None)
        num = [('obj', p['n']) for p, t in zip(f['ps'], P.ptypes(f)) if t.replace('const ', '').strip() in ('int', 'unsigned int', 'unsigned long', 'long', 'short')]
        for o in outs:
            toks = self.tokens(T, o.st.ev)
            if any(t[0] == '?' for t in toks):
                ok = False
                R.undecided(loc(f), '%s: what is written' % f['q'][:80])
                continue
            vals = [t for t in toks if t[0] == 'val']
            rest = [t for t in toks if t[0] != 'val' and t != ('b', 10)]
            bad = None
            if len(vals) != 1 or rest or not any(has(a, v) for a in vals[0][1]):
                bad = 'writes %s, not the value given' % text(toks)
            elif 'ostream' in ''.join(P.ptypes(f)) and not same_stream(P, f, vals[0]):
                bad = 'writes to another stream'
            elif len(num) == 1:
                parts = list(vals[0][1])
                for a in vals[0][1]:
                    if a[0] == 'ctor':
                        parts += a[2:]
                ks = [offset(a, num[0]) for a in parts if mentions(a, num[0])]
                if not any(mentions(a, num[0]) for a in vals[0][1]):
                    bad = 'the depth is lost'
                elif any(k is not None and k < 0 for k in ks):
                    bad = 'the depth decreases'
            if bad:
                ok = False
                R.violate(loc(f), RULE, '%s: %s' % (f['q'][:80], bad), 'hand|%s' % f['b'])
        R.ob('handing on', '%s %s' % (loc(f), f['q'][:60]), ok)


def span(a, b):
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[2] == C(0) and b[2] == ('size', a[1]):
        return a[1]
    return None


def clean(toks):
    out = []
    for t in toks:
        if t == ('b0',):
            continue
        if t[0] == 'loop':
            paths = [(p[0], p[1], clean(p[2])) + tuple(p[3:]) for p in t[2]]
            if not any(p[2] for p in paths):
                continue
            t = ('loop', t[1], paths)
        out.append(t)
    return out


def yfacts(facts):
    """what is known on a path, emptiness as a bound"""
    out = []
    for a, v in nfacts(facts):
        if a[0] == 'T' and a[1][0] in ('size',):
            a = ('lt', C(0), a[1])
        elif a[0] == 'eq' and a[1][0] == 's' and a[2][0] != 's':
            a = ('eq', a[2], a[1])
        out.append((a, v))
    return out


def plain(a, key):
    """a condition on a key that is understood"""
    if a[0] == 'eq' and key in a[1:] and any(x[0] == 's' for x in a[1:]):
        return True
    return a[0] in ('lt', 'eq') and all(x[0] == 'c' or x == ('size', key) for x in a[1:])


def depths(outs):
    """the number that tells how deep a value is: the field of the printer that is compared with zero or handed on"""
    out = set()

    def look(t):
        if isinstance(t, tuple) and t:
            if t[0] == 'fld' and len(t) == 3 and t[1] == ('obj', 'this'):
                out.add(t)
                return
            for x in t:
                look(x)
    for o in outs:
        for a in o.st.facts:
            if a[0] in ('lt', 'eq', 'T'):
                look(a)
    out = {t for t in out if t[2] not in ('out',)}
    return out.pop() if len(out) == 1 else ('fld', ('obj', 'this'), 'indent') if not out else None


def ring(t):
    return ring_of(turn(t))


def offset(a, depth):
    """k where a is depth + k"""
    if a == depth:
        return 0
    try:
        f = ring(('sum', a, ('neg', depth)))
    except Exception:
        return None
    return number(f)


def number(f):
    """a ring form that is a number"""
    return f[1] if not any(f[0].values()) else None


def turn(t):
    """factors first, casts of numbers away"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ('trunc', 'sgn') and len(t) == 4:
        return turn(t[3])
    t = tuple(turn(x) for x in t)
    if t[0] == 'op' and t[1] == '*' and t[3][0] == 'c':
        return ('op', '*', t[3], t[2])
    return t


def indentation(toks, depth, outer):
    """((constant, times the depth), tokens read): how far a line is indented"""
    c, k, n = 0, 0, 0
    for t in toks:
        if t == ('b', 32):
            c += 1
        elif t[0] == 'many' and t[1] == 32:
            x = t[2]
            try:
                f = ring(x)
            except Exception:
                return None, n
            a = number(f)
            if a is not None:
                c += a
            else:
                for m in range(1, 17):
                    d = number(ring(('sum', x, ('neg', ('op', '*', C(m), depth)))))
                    if d is not None:
                        c, k = c + d, k + m
                        break
                else:
                    return None, n
        elif t[0] == 'loop':
            w = {tuple(p[2]) for p in t[2]}
            if len(w) != 1 or t[1]['exits'] or any(p[0] != 'norm' for p in t[2]):
                return None, n
            w = w.pop()
            if not w or any(x != ('b', 32) for x in w):
                return None, n
            r = rounds(t[1], t[2], depth)
            if r is None:
                return None, n
            if r == 'alike':
                return (0, -1), n + 1
            c, k = c + len(w) * r[0], k + len(w) * r[1]
        else:
            break
        n += 1
    return (c, k), n


def rounds(i, paths, depth):
    """(k, m) where a loop runs m * depth + k times, 'alike' where two depths have the same number"""
    ix = i['ix']
    ks = set()
    for p in paths:
        rows = [(a, v) for a, v in delta(i, p[1]).items() if mentions(a, ix)]
        if len(rows) != 1:
            return None
        a, v = rows[0]
        if a[0] == 'lt':
            # v: a[1] < a[2]; not v: a[2] <= a[1]
            hi, lo, more = (a[2], a[1], 0) if v else (a[1], a[2], 1)
        elif a[0] == 'T' and v:
            hi, lo, more = a[1], C(0), 0
        elif a[0] == 'eq' and not v:
            hi, lo, more = a[2], a[1], 0
            if number(ring(('sum', hi, ('neg', lo)))) is None and number(ring(('sum', ('sum', hi, ('neg', lo)), ('sum', depth, ('neg', ix))))) is not None:
                hi, lo = lo, hi
        else:
            return None
        # hi - lo + more = (depth + k) - ix
        d = number(ring(('sum', ('sum', ('sum', hi, ('neg', lo)), C(more)), ('sum', ix, ('neg', depth)))))
        if d is None:
            for m in range(2, 9):
                if number(ring(('sum', ('sum', hi, ('neg', lo)), ('sum', ('op', '*', C(m), ix), ('neg', depth))))) is not None:
                    return 'alike'
            d = number(ring(('sum', ('sum', hi, ('neg', lo)), ('sum', C(more), ix))))
            if d is None:
                return None
            ks.add((d, 0))
            continue
        ks.add((d, 1))
    return ks.pop() if len(ks) == 1 else None


def points(breaks):
    """code points at both ends of every range told apart"""
    marks = {0, TOP + 1, 0xD800, 0xE000} | set(SHORT.values()) | {v + 1 for v in SHORT.values()}
    marks |= {0x20, 0x7F, 0x80, 0x85, 0x86, 0xA0, 0xFEFF, 0xFF00, 0xFFFE, 0x10000, 0x100, 0x1000, 0x100000}
    marks |= {1 << b for b in range(21)}
    for b in breaks:
        marks |= {b, b + 1}
    out = set()
    for m in marks:
        out |= {m - 1, m}
    return sorted(n for n in out if 0 <= n <= TOP and not 0xD800 <= n < 0xE000)


def printable(n):
    return n == 9 or 0x20 <= n <= 0x7E or 0xA0 <= n <= 0xD7FF or 0xE000 <= n <= 0xFFFD and n != 0xFEFF or 0x10000 <= n <= TOP


def unquote(have):
    """the code points YAML reads from text between double quotes; None if it is not well-formed"""
    out, h = [], list(have)
    while h:
        b = h.pop(0)
        if isinstance(b, tuple):
            n = b[1]
            if not printable(n) or n in (34, 92, 0x2028, 0x2029):
                return None
            out.append(n)
            continue
        if b is None or b == 34 or b > 126 or b < 32 and b != 9:
            return None
        if b != 92:
            out.append(b)
            continue
        if not h or not isinstance(h[0], int):
            return None
        c = chr(h.pop(0))
        if c in SHORT:
            out.append(SHORT[c])
            continue
        w = {'x': 2, 'u': 4, 'U': 8}.get(c)
        if w is None or len(h) < w or not all(isinstance(x, int) and chr(x) in '0123456789abcdefABCDEF' for x in h[:w]):
            return None
        n = int(bytes(h[:w]), 16)
        h = h[w:]
        if n > TOP or 0xD800 <= n < 0xE000:
            return None
        out.append(n)
    return out

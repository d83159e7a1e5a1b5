"""J01: the text written for a value is JSON that reads back as that value."""
import refr
import bits
from absint import Interp, Budget, C, fmt
from front import loc, walk_lam
from outs import Text, Listing, Cases, whole, chars, between, nfacts, excluded
from u01 import numbers

RULE = 'json'
SO = 'drafter::utils::so::'
KINDS = ('Null', 'True', 'False', 'String', 'Number', 'Object', 'Array')
WORDS = {'Null': b'null', 'True': b'true', 'False': b'false'}
WS = (32, 10, 9, 13)
SHORT = {ord('"'): 34, ord('\\'): 92, ord('/'): 47, ord('b'): 8, ord('f'): 12, ord('n'): 10, ord('r'): 13, ord('t'): 9}
FILE = 'utils/so/JsonIo.'


def check(R, P):
    R.rule('Each kind of value writes, between white space: null, true, false; the text of a number; a string in quotes; an '
           'object in braces, each member as its quoted key, a colon and its value; an array in brackets; a comma stands '
           'between two elements and nowhere else (decided for the only, the first, an inner and the last element, with '
           'what the loop carries along). Every element is written, once, in order.')
    R.rule('Each of the 256 octets is written, inside quotes, as text that JSON reads as that octet; no control character, '
           'quote or backslash is written as it stands. Decided path by path for each octet, with the signedness of char.')
    R.rule('The packed form holds no white space outside strings.')
    fs = [f for f in P.fns.values() if FILE in f['file'] and f.get('body') is not None]
    rec = {f['q'] for f in fs if any(SO + 'Null' in t and SO + 'Array' in t for t in P.ptypes(f))}
    tight = packed(P, fs)
    for f in sorted(fs, key=lambda f: (f['q'], f['line'])):
        k = kind(P, f)
        if k:
            printer(R, P, f, k, rec, f in tight)
    for f in fs:
        if f['q'] in rec:
            handing_on(R, P, f, rec)
    R.floor('value', 14)
    R.floor('string', 4)
    R.floor('list', 4)
    R.floor('handing on', 3)


def kind(P, f):
    if f['n'] != 'operator()' or len(f['ps']) != 1:
        return None
    t = P.ptypes(f)[0].replace('const ', '').replace('&', '').strip()
    return t[len(SO):] if t.startswith(SO) and t[len(SO):] in KINDS else None


def packed(P, fs):
    """printers behind the packed form"""
    out, todo, seen = [], [f for f in fs if any('packed' in t for t in P.ptypes(f))], set()
    while todo:
        f = todo.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        if kind(P, f):
            out.append(f)
        for x in walk_lam(P, f['body']):
            g = P.fns.get(x.get('f')) if isinstance(x.get('f'), str) else None
            if g in fs:
                todo.append(g)
            if x.get('k') in ('init', 'ctor', 'ilist', 'decl') and 't' in x:
                s = P.ty(x['t'])['s']
                todo += [h for h in fs if kind(P, h) and s.replace('const ', '') == h['q'].rpartition('::')[0]]
    return out


def machine(P, f, rec):
    I = Interp(P, hooks=dict(refr.hooks(), bytes=True, ignore_sign=False), noinline={r.split('<')[0] for r in rec}, max_states=600)

    def value(e):
        if e[1] in rec or e[1].split('<')[0] in {r.split('<')[0] for r in rec} or e[1].startswith('std::visit'):
            return ('val', e[3], e)
        return None
    return I, Text(I, value)


def printer(R, P, f, k, rec, tight):
    R.seen(f)
    I, T = machine(P, f, rec)
    try:
        outs = I.run(f)
    except Budget:
        R.undecided(loc(f), '%s: too many paths' % f['q'])
        return
    data = ('fld', ('obj', f['ps'][0].get('n') or 'value'), 'data')
    ok, doubt = True, False
    J = Reader(R, P, I, data, tight)
    for o in outs:
        facts = nfacts(o.st.facts)
        if excluded(facts):
            continue
        if o.kind == 'throw':
            bad = '?raises'
        else:
            bad = J.whole(k, T.tokens(o.st.ev), facts)
        if bad and bad.startswith('?'):
            doubt = True
            R.undecided(loc(f), '%s: %s' % (f['q'][:80], bad[1:]))
        elif bad:
            ok = False
            R.violate(loc(f), RULE, '%s (%s): %s' % (f['q'][:80], k, bad), '%s|%s' % (k, bad))
    R.ob('value', '%s %s' % (loc(f), k), ok and not doubt)


class Reader:
    def __init__(self, R, P, I, data, tight):
        self.R, self.P, self.I, self.data, self.tight = R, P, I, data, tight
        self.consts = numbers(P)

    def flat(self, toks):
        """without white space; loops that write only white space are white space"""
        out = []
        for t in toks:
            if t[0] in ('b', 'many') and t[1] in WS or t[0] == 'loop' and all(x[0] == 'b' and x[1] in WS for p in t[2] for x in p[2]):
                if self.tight:
                    return None, 'the packed form writes white space'
                out.append(('ws',))
            elif t[0] == '?':
                return None, '?what %s writes' % t[1]
            else:
                out.append(t)
        return out, None

    def whole(self, k, toks, facts):
        # white space inside a string is text
        toks, bad = self.flat(self.strings(toks))
        if bad:
            return bad
        while toks and toks[0] == ('ws',):
            toks = toks[1:]
        while toks and toks[-1] == ('ws',):
            toks = toks[:-1]
        if k in WORDS:
            w = [('b', b) for b in WORDS[k]]
            return None if toks == w else 'writes %s' % text(toks)
        if k == 'Number':
            if toks == [('v', self.data)]:
                return None
            return ('?' if any(t[0] in ('v', 'loop') for t in toks) and len(toks) == 1 else '') + 'writes %s' % text(toks)
        if k == 'String':
            if len(toks) != 1 or toks[0][0] != 'str':
                return unread(toks) + 'writes %s' % text(toks)
            return self.string(toks[0], self.data)
        a, b = ('{', '}') if k == 'Object' else ('[', ']')
        toks = [t for t in toks if t != ('ws',)]
        if len(toks) < 2 or toks[0] != ('b', ord(a)) or toks[-1] != ('b', ord(b)):
            return unread(toks) + 'writes %s' % text(toks)
        mid = toks[1:-1]
        n = ('size', self.data)
        if not mid:
            return None if excluded(facts + [(('lt', C(0), n), True)]) else 'leaves out the elements'
        if len(mid) != 1 or mid[0][0] != 'loop':
            return '?how the elements are written'
        return self.listing(k, mid[0], facts)

    def strings(self, toks):
        """what stands between two quotes as one token"""
        out, cur = [], None
        for t in toks:
            if t == ('b', 34):
                if cur is None:
                    cur = []
                else:
                    out.append(('str', cur))
                    cur = None
            elif cur is not None and t[0] != '?':
                cur.append(t)
            else:
                out.append(t)
        if cur is not None:
            out += [('b', 34)] + cur
        return out

    def listing(self, k, t, facts):
        i = t[1]
        if not whole(i, self.data):
            return '?whether every element is written' if i['range'] is None else \
                'writes not every element, or not in order' if i['range'][1] == self.data and i['range'][2][0] == 'c' and not i['exits'] \
                and all(p[0] == 'norm' for p in t[2]) else '?which elements are written'
        el = ('elem', self.data, i['ix'])
        res = {}

        def shape(toks):
            toks, bad = self.flat(self.strings(toks))
            if bad:
                res['bad'] = bad
                return None
            toks = [x for x in toks if x != ('ws',)]
            out = []
            while toks:
                x = toks[0]
                if x == ('b', ord(',')):
                    out.append('sep')
                    toks = toks[1:]
                    continue
                v = el
                if k == 'Object':
                    v = ('fld', el, 'second')
                    if x[0] != 'str' or len(toks) < 3 or toks[1] != ('b', ord(':')):
                        res['bad'] = unread(toks) + 'a member is written as %s' % text(toks)
                        return None
                    b = self.string(x, ('fld', el, 'first'))
                    if b:
                        res['bad'] = b
                        return None
                    x, toks = toks[2], toks[2:]
                if x[0] != 'val':
                    res['bad'] = unread(toks) + 'an element is written as %s' % text(toks)
                    return None
                if v not in x[1]:
                    res['bad'] = 'writes another value than that of the element'
                    return None
                out.append('item')
                toks = toks[1:]
            return out
        bad = between(Listing(i, self.data, t[2], facts), shape)
        bad = res.get('bad') or ('?what stands between the elements' if bad == '?' else bad)
        self.R.ob('list', '%s' % loc(i['fn'], {'l': i['line']}), not bad)
        return bad

    def string(self, t, cont):
        toks = t[1]
        if len(toks) != 1 or toks[0][0] != 'loop':
            if len(toks) == 1 and toks[0][0] == 'v':
                return 'writes %s as it stands' % fmt(toks[0][1]) if toks[0][1] == cont else '?what is written in quotes'
            return '?what is written in quotes' if toks else 'writes nothing in quotes'
        i, paths = toks[0][1], toks[0][2]
        if not whole(i, cont):
            if i['range'] is not None and i['range'][1] != cont and i['range'][1][0] in ('fld', 'elem'):
                return 'writes another text than %s' % fmt(cont)
            return '?whether every octet is written'
        c = Cases(i, paths, ('elem', cont, i['ix']), self.consts)
        bad = None
        for n in range(256):
            live, B = c.at(bits.const(n - 256 if n > 127 else n))
            if live is None or len(live) != 1:
                return '?how the octet %02X is written' % n
            have = chars(live[0][2], B, None)
            if have is None:
                return '?what is written for the octet %02X' % n
            got = unquote(have)
            if got != [n] and bad is None:
                bad = 'the octet %02X is written as %s, which reads as %s' % (
                    n, show(have), 'no JSON' if got is None else show(got) or 'nothing')
        self.R.ob('string', '%s %s' % (loc(i['fn'], {'l': i['line']}), fmt(cont)), bad is None)
        return bad


def unquote(have):
    """the octets JSON reads from text between quotes, None if it is not well-formed"""
    out, h = [], list(have)
    while h:
        b = h.pop(0)
        if b is None or b < 32 or b == 34:
            return None
        if b != 92:
            out.append(b)
            continue
        if not h or h[0] is None:
            return None
        b = h.pop(0)
        if b in SHORT:
            out.append(SHORT[b])
            continue
        if b != ord('u') or len(h) < 4 or None in h[:4]:
            return None
        d, h = bytes(h[:4]), h[4:]
        if any(c not in b'0123456789abcdefABCDEF' for c in d):
            return None
        out += list(chr(int(d, 16)).encode('utf-8', 'surrogatepass'))
    return out


def unread(toks):
    """text whose content is not known may be anything"""
    return '?' if any(t[0] in ('v', 'many', 'fmt', 'bs') for t in toks) else ''


def show(bs):
    return ' '.join('%02X' % b if b is not None else '??' for b in bs)


def text(toks):
    s = ''
    for t in toks:
        s += chr(t[1]) if t[0] == 'b' else ' ' if t[0] == 'ws' else '(%s)' % {'v': 'text', 'val': 'value', 'loop': 'elements', 'str': 'string'}.get(t[0], t[0])
    return repr(s[:60]) if toks else 'nothing'


def handing_on(R, P, f, rec):
    """a function given a value of any kind has it written, once"""
    R.seen(f)
    I, T = machine(P, f, rec)
    try:
        outs = I.run(f)
    except Budget:
        R.undecided(loc(f), '%s: too many paths' % f['q'])
        return
    ok = True
    for o in outs:
        v = next((('obj', p['n']) for p, t in zip(f['ps'], P.ptypes(f)) if SO + 'Null' in t), None)
        toks = T.tokens(o.st.ev)
        if any(t[0] == '?' for t in toks):
            ok = False
            R.undecided(loc(f), '%s: what is written' % f['q'][:80])
        elif [t[0] for t in toks if t[0] != 'b' or t[1] not in WS] != ['val'] or v not in next(t[1] for t in toks if t[0] == 'val'):
            ok = False
            R.violate(loc(f), RULE, '%s: writes %s, not the value given' % (f['q'][:80], text(toks)), 'hand|%s' % f['b'])
        else:
            bad = next((t for t in toks if t[0] == 'val'), None)
            if 'ostream' in ''.join(P.ptypes(f)) and not same_stream(P, f, bad):
                ok = False
                R.violate(loc(f), RULE, '%s: writes to another stream' % f['q'][:80], 'stream|%s' % f['b'])
    R.ob('handing on', '%s %s' % (loc(f), f['q'][:60]), ok)


def same_stream(P, f, t):
    out = next((('obj', p['n']) for p, s in zip(f['ps'], P.ptypes(f)) if 'ostream' in s), None)
    return out is None or any(has(a, out) for a in t[1])


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t)

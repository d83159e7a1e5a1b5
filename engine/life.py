"""Lifetimes: which places references, pointers and iterators point into, and what ends or moves those places.

A walk over the syntax tree of one function, path-sensitive in the conditions it can read again.  A place is a tuple: a root
(('v', decl), ('this',), ('g', decl), ('t', n) for a temporary) and steps: ('f', name) a member, ('b',) the base part,
('*',) what an owner owns, ('^',) what something that owns nothing points to, ('[]', key) an element of a container,
('()', function) what an accessor answers."""
from front import strip_targs

VEC = {'std::vector', 'std::basic_string'}
NODE = {'std::list', 'std::map', 'std::set', 'std::multimap', 'std::multiset'}
HASH = {'std::unordered_map', 'std::unordered_set'}
DEQ = {'std::deque'}
CONT = VEC | NODE | HASH | DEQ
ITERS = ('__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
         'std::_List_iterator', 'std::_List_const_iterator', 'std::__detail::_Node_iterator',
         'std::__detail::_Node_const_iterator', 'std::reverse_iterator')
GROW = {'push_back', 'emplace_back', 'append', 'operator+='}
ALL = {'insert', 'emplace', 'resize', 'reserve', 'shrink_to_fit', 'clear', 'assign', 'operator=', 'replace', 'push_front',
       'emplace_front'}
ENDS = {'pop_back', 'pop_front'}
REINIT = {'operator=', 'clear', 'assign', 'reset', 'str', 'open'}
OWNER = {'std::unique_ptr'}
KEEPS = {'std::vector', 'std::basic_string', 'std::deque', 'std::list', 'std::map', 'std::set', 'std::multimap',
         'std::multiset', 'std::unordered_map', 'std::unordered_set', 'std::unique_ptr', 'std::shared_ptr', 'std::function'}
LIMIT = 24


class St:
    __slots__ = ('al', 'pts', 'bad', 'facts', 'ver', 'res')

    def __init__(self):
        self.al, self.pts, self.bad, self.facts, self.ver, self.res = {}, {}, {}, {}, {}, frozenset()

    def copy(self):
        s = St()
        s.al, s.pts, s.bad = dict(self.al), dict(self.pts), dict(self.bad)
        s.facts, s.ver, s.res = dict(self.facts), dict(self.ver), self.res
        return s

    def key(self):
        return (tuple(sorted(self.al.items(), key=repr)), tuple(sorted(self.pts.items(), key=repr)),
                tuple(sorted(self.bad.items(), key=repr)), self.res)


def merge(ss):
    """states that differ in their conditions only are one"""
    out = {}
    for s in ss:
        k = s.key()
        o = out.get(k)
        if o is None:
            out[k] = s
        else:
            both = {a: v for a, v in o.facts.items() if s.facts.get(a) == v}
            for a in [a for a in both if a[0] == 'nul']:
                b = ('nn', ('v',) + a[1:])
                if o.facts.get(b) != s.facts.get(b):
                    both.pop(a)        # asked for on some of the paths that meet here
            o.facts = both
            for d, v in s.ver.items():
                if o.ver.get(d) != v:
                    o.ver[d] = max(v, o.ver.get(d, 0)) + 1000
    return list(out.values())


class Val:
    """what an expression is: `path` the place (lvalue), `pts` the places a pointer or iterator may point into"""
    __slots__ = ('path', 'pts', 'kind', 'moved', 'src')

    def __init__(self, path=None, pts=None, kind=None, moved=False, src=None):
        self.path, self.pts, self.kind, self.moved, self.src = path, pts, kind, moved, src


NOTHING = Val()


class Life:
    def __init__(self, P, summaries, fn, report=None):
        self.P, self.sum, self.fn, self.report = P, summaries, fn, report
        self.n = 0
        self.effects = set()      # (place from this or a parameter, what)
        self.returns = set()      # ('path'|'pts', place)
        self.moves = set()        # parameters moved from
        self.over = False
        self.local = {}           # decl -> (name, owns itself)
        self.params = {}
        self.obs = {'reference, pointer or iterator kept': 0, 'move': 0, 'deletion': 0, 'reference answered': 0}
        self.byval = set()

    # ---- small things
    def fresh(self):
        self.n += 1
        return self.n

    def tname(self, tid):
        t = self.P.ty(tid)
        return t.get('tn') or strip_targs(t.get('q') or t['s'])

    def kind_of(self, tid):
        t = self.P.ty(tid)
        if t['k'] in ('ref', 'rref'):
            return 'ref'
        if t['k'] == 'ptr':
            return 'ptr'
        if t['k'] == 'rec' and self.tname(tid).startswith(ITERS):
            return 'it'
        return None

    def keeps(self, tid, depth=0):
        """moving from one leaves something else than it was"""
        t = self.P.ty(tid)
        if t['k'] != 'rec':
            return False
        n = self.tname(tid)
        if n in KEEPS:
            return True
        r = self.P.recs.get(t.get('q'))
        if r is None or depth > 4:
            return False
        key = t.get('q')
        memo = self.sum.setdefault(('keeps',), {})
        if key not in memo:
            memo[key] = False
            memo[key] = any(self.keeps(f['t'], depth + 1) for f in r['fields']) or any(
                self.keeps(b['t'], depth + 1) for b in r.get('bases', ()) if isinstance(b, dict) and 't' in b)
        return memo[key]

    def say(self, node, key, text):
        if self.report:
            self.report(self.fn, node, key, text)

    # ---- functions
    def run(self):
        fn, st = self.fn, St()
        for p in fn['ps']:
            t = self.P.ty(p['t'])
            self.params[p['d']] = p
            if t['k'] not in ('ref', 'rref'):
                self.local[p['d']] = p['n']
        ss = [st]
        for i in fn.get('inits') or ():
            if i.get('e') is not None:
                nxt = []
                for s in ss:
                    for s2, v in self.ex(i['e'], s):
                        if 'f' in i and self.isref(fn, i['f']):
                            self.stored(s2, v, i['e'])
                        self.consume(s2, v, i['e'], True)
                        nxt.append(s2)
                ss = self.cap(nxt)
        if fn.get('body'):
            self.stmt(fn['body'], ss)
        return self

    def isref(self, fn, f):
        r = self.P.recs.get(fn.get('cls'))
        for x in r['fields'] if r else ():
            if x['n'] == f:
                return self.P.ty(x['t'])['k'] in ('ref', 'rref')
        return False

    def stored(self, s, v, node):
        """a reference or pointer kept in a member: not a place that ends with this call"""
        p = v.path
        if p and p[0][0] == 't' or p and p[0][0] == 'v' and p[0][1] in self.local and not self.raw(p):
            self.say(node, 'member|%s' % self.show(p), 'a reference to %s, which ends with the call, is kept in a member' % self.show(p))

    def raw(self, p):
        return any(x[0] == '^' for x in p[1:])

    def cap(self, ss):
        if len(ss) > 6:
            ss = merge(ss)
        if len(ss) > LIMIT:
            self.over = True
            ss = ss[:LIMIT]
        return ss

    def show(self, p):
        if p is None:
            return 'it'
        r = p[0]
        out = {'this': 'this', 't': 'a temporary'}.get(r[0])
        if out is None:
            out = self.names.get(r[1]) or str(r[1]).split('@')[0]
        for x in p[1:]:
            if x[0] == 'f':
                out += '.' + x[1]
            elif x[0] == '[]':
                out += '[..]'
            elif x[0] in '*^':
                out = '*' + out
            elif x[0] == '()':
                out += '.' + x[2] + '()'
        return out.replace('this.', '')

    @property
    def names(self):
        return self._names

    # ---- statements: returns dict kind -> states
    def stmt(self, x, ss):
        out = {'norm': [], 'brk': [], 'cnt': []}
        if x is None:
            out['norm'] = ss
            return out
        if not ss:
            return out
        k = x['s']
        if k == 'blk':
            return self.block(x['b'], ss)
        if k == 'exp':
            out['norm'] = self.cap([s2 for s in ss for s2 in self.discard(x['e'], s)])
        elif k == 'decl':
            for v in x['v']:
                ss = self.cap([s2 for s in ss for s2 in self.declare(v, s)])
            out['norm'] = ss
        elif k == 'if':
            ds = []
            if x.get('i'):
                ss = self.stmt(x['i'], ss)['norm']
                ds += self.decls(x['i'])
            if x.get('v'):
                ss = self.cap([s2 for s in ss for s2 in self.declare(x['v'], s)])
                ds.append(x['v'])
            yes, no = self.branch(x['c'], ss)
            a, b = self.stmt(x['T'], yes), self.stmt(x['F'], no)
            for j in out:
                out[j] = self.cap(a[j] + b[j])
            self.leave(ds, out)
        elif k in ('for', 'while', 'do'):
            ds = []
            if x.get('i'):
                ss = self.stmt(x['i'], ss)['norm']
                ds += self.decls(x['i'])
            done = []
            for rnd in range(2):
                if x.get('v'):
                    ss = self.cap([s2 for s in ss for s2 in self.declare(x['v'], s)])
                if k != 'do' or rnd:
                    if x.get('c') is not None:
                        yes, no = self.branch(x['c'], ss)
                    else:
                        yes, no = ss, []
                    done += no
                else:
                    yes = ss
                o = self.stmt(x['b'], yes)
                done += o['brk']
                ss = self.cap(o['norm'] + o['cnt'])
                if x.get('n') is not None:
                    ss = self.cap([s2 for s in ss for s2 in self.discard(x['n'], s)])
            if x.get('v'):
                ss = self.cap([s2 for s in ss for s2 in self.declare(x['v'], s)])
            if x.get('c') is not None:
                _, no = self.branch(x['c'], ss)
                done += no
            out['norm'] = self.cap(done)
            self.leave(ds + ([x['v']] if x.get('v') else []), out)
        elif k == 'rfor':
            done = []
            nxt = []
            for s in ss:
                for s2, v in self.ex(x['r'], s):
                    if v.path and v.path[0][0] == 't' and not self.raw(v.path) and (
                            len(v.path[0]) > 2 or any(x[0] not in 'fb' for x in v.path[1:])):
                        self.say(x, 'range|temporary', 'the loop runs over a part of a temporary that ends before it')
                    p = v.path or (('t', self.fresh()),)
                    i = ('loop', x.get('l'), self.n)
                    t = x['v']
                    self.local[i] = 'the range'
                    s2.pts[i] = (frozenset({p + (('[]', ('loop', self.fresh())),)}), 'it')
                    nxt.append((s2, i, v))
            ss = []
            for s, i, v in nxt:
                done.append(s.copy())
                cur = [s]
                for rnd in range(2):
                    ent = []
                    for c in cur:
                        if not self.use_it(c, i, x, 'the loop goes on'):
                            continue
                        self.enter(x['v'], c, i)
                        ent.append(c)
                    o = self.stmt(x['b'], ent)
                    done += [d for d in o['brk']]
                    cur = self.cap(o['norm'] + o['cnt'])
                    done += [c.copy() for c in cur]
                # the step after the last round
                for c in cur:
                    self.use_it(c, i, x, 'the loop goes on')
            for d in done:
                for i in [i for i in d.pts if isinstance(i, tuple)]:
                    d.pts.pop(i, None)
                    d.bad.pop(('d', i), None)
                self.die(d, [x['v']])
            out['norm'] = self.cap(merge(done))
        elif k == 'switch':
            ds = []
            if x.get('i'):
                ss = self.stmt(x['i'], ss)['norm']
            ss = self.cap([s2 for s in ss for s2, v in self.ex(x['c'], s)])
            body = x['b']['b'] if x['b'] and x['b']['s'] == 'blk' else [x['b']]
            cur, has = [], False
            for y in body:
                z = y
                while z is not None and z['s'] in ('case', 'default'):
                    has = has or z['s'] == 'default'
                    if z is y:
                        cur = self.cap(cur + [s.copy() for s in ss])
                    z = z['b']
                o = self.stmt(z, cur)
                cur = o['norm']
                out['brk'] += o['brk']
                out['cnt'] += o['cnt']
            out['norm'] = self.cap(cur + out['brk'] + ([] if has else ss))
            out['brk'] = []
        elif k in ('case', 'default', 'label'):
            return self.stmt(x['b'], ss)
        elif k == 'ret':
            for s in ss:
                for s2, v in self.ex(x['e'], s) if x.get('e') is not None else ():
                    self.ret(s2, v, x)
        elif k == 'brk':
            out['brk'] = ss
        elif k == 'cnt':
            out['cnt'] = ss
        elif k == 'try':
            start = [s.copy() for s in ss]
            out = self.stmt(x['b'], ss)
            for h in x['h']:
                o = self.stmt(h['b'], [s.copy() for s in start])
                for j in out:
                    out[j] = self.cap(out[j] + o[j])
        elif k == 'goto':
            self.over = True
        else:
            out['norm'] = ss
        return out

    def decls(self, x):
        return x['v'] if x and x['s'] == 'decl' else []

    def block(self, body, ss):
        out = {'norm': ss, 'brk': [], 'cnt': []}
        ds = []
        for y in body:
            if y is None:
                continue
            o = self.stmt(y, out['norm'])
            out['norm'] = o['norm']
            out['brk'] += o['brk']
            out['cnt'] += o['cnt']
            ds += self.decls(y)
        for j in out:
            out[j] = self.cap(merge(out[j]) if len(out[j]) > 1 else out[j])
        self.leave(ds, out)
        return out

    def leave(self, ds, out):
        if ds:
            for j in out.values():
                for s in j:
                    self.die(s, ds)

    def die(self, s, ds):
        """the end of a scope"""
        for v in ds:
            d = v['d']
            if v.get('static'):
                continue
            root = ('v', d)
            if d not in s.al and self.kind_of(v['t']) != 'ref':
                for w, (ps, kind) in list(s.pts.items()):
                    if w != d and any(p[0] == root and not self.raw(p) for p in ps):
                        s.bad[('d', w)] = (v.get('l'), '%s, which it pointed into, has ended' % v['n'])
            s.al.pop(d, None)
            s.pts.pop(d, None)
            s.bad.pop(('d', d), None)
            for b in [b for b in s.bad if b[0] == 'm' and b[1][0] == root]:
                s.bad.pop(b)
            s.ver[d] = s.ver.get(d, 0) + 1

    def ret(self, s, v, x):
        t = self.P.ty(self.fn['ret'])
        k = 'ref' if t['k'] in ('ref', 'rref') else self.kind_of(self.fn['ret'])
        if k is None:
            return
        ps = [('path', v.path)] if k == 'ref' else [('pts', p) for p in v.pts or ()]
        if k == 'ref':
            ps += [('path', None)] if not v.path else []
        self.obs['reference answered'] += 1
        for w, p in ps:
            if p is None:
                self.returns.add((w, None))
                continue
            if p[0][0] == 't' and not self.raw(p):
                self.say(x, 'return|temporary', 'answers a %s to a part of a temporary' % ('reference' if k == 'ref' else 'pointer'))
            elif p[0][0] == 'v' and not self.raw(p) and p[0][1] in self.local and not self.isparamref(p[0][1]):
                self.say(x, 'return|%s' % self.show(p), 'answers a %s to %s, which ends with the call' % (
                    'reference' if k == 'ref' else 'pointer' if k == 'ptr' else 'iterator', self.show(p)))
            else:
                self.returns.add((w, self.plainkey(p)))
        if v.src is not None and not v.moved:
            self.use_var(s, v.src, x, 'is answered')

    def isparamref(self, d):
        return d in self.params and self.P.ty(self.params[d]['t'])['k'] in ('ref', 'rref')

    def plainkey(self, p):
        return tuple(('[]', None) if x[0] == '[]' and not (isinstance(x[1], tuple) and x[1][0] == 'c') and
                     x[1] not in ('front', 'back', 'begin', 'end') else x for x in p)

    # ---- declarations
    def declare(self, v, s):
        d, k = v['d'], self.kind_of(v['t'])
        self._names[d] = v['n']
        s.ver[d] = s.ver.get(d, 0) + 1
        s.al.pop(d, None)
        s.pts.pop(d, None)
        s.bad.pop(('d', d), None)
        for b in [b for b in s.bad if b[0] == 'm' and b[1][0] == ('v', d)]:
            s.bad.pop(b)
        if not v.get('static') and k != 'ref':
            self.local[d] = v['n']
        if v.get('e') is None:
            return [s]
        out = []
        for s2, val in self.ex(v['e'], s):
            self.bindto(s2, d, v, k, val)
            out.append(s2)
        return out

    def bindto(self, s, d, v, k, val):
        if v.get('static'):
            return
        if k == 'ref':
            p = val.path
            if p is None:
                return
            if p[0][0] == 't':
                if not self.raw(p) and (len(p[0]) > 2 or any(x[0] != 'f' and x[0] != 'b' for x in p[1:])):
                    self.say(v, 'bind|%s' % v['n'], '%s refers to a part of a temporary that ends here' % v['n'])
                return
            self.obs['reference, pointer or iterator kept'] += 1
            s.al[d] = p
            s.pts[d] = (frozenset({p}), 'ref')
            return
        if k in ('ptr', 'it'):
            if val.pts:
                self.obs['reference, pointer or iterator kept'] += 1
                if any(p[0][0] == 't' and not self.raw(p) for p in val.pts):
                    self.say(v, 'bind|%s' % v['n'], '%s points into a temporary that ends here' % v['n'])
                s.pts[d] = (frozenset(val.pts), k)
            if val.src is not None:
                b = s.bad.get(('d', val.src))
                if b:
                    s.bad[('d', d)] = b
            return
        self.consume(s, val, v['e'], True)
        c = self.const(v['e'])
        if c is not None:
            s.facts[('v', d, s.ver.get(d, 0))] = bool(c)

    def enter(self, v, s, i):
        d, k = v['d'], self.kind_of(v['t'])
        self._names[d] = v['n']
        s.ver[d] = s.ver.get(d, 0) + 1
        s.bad.pop(('d', d), None)
        s.pts.pop(d, None)
        s.al.pop(d, None)
        ps, _ = s.pts.get(i, (frozenset(), None))
        p = next(iter(ps), None)
        if p is not None:
            p = p[:-1] + (('[]', ('loop', self.fresh())),)
            s.pts[i] = (frozenset({p}), 'it')
        if k == 'ref' and p is not None and p[0][0] != 't':
            s.al[d] = p
            s.pts[d] = (frozenset({p}), 'ref')
        elif k != 'ref':
            self.local[d] = v['n']

    def const(self, e):
        while isinstance(e, dict) and 'cv' not in e and e.get('k') in ('ic', 'cast'):
            e = e['e']
        return e.get('cv') if isinstance(e, dict) and 'cv' in e else None

    # ---- conditions
    def branch(self, c, ss):
        yes, no = [], []
        for s in ss:
            for s2, v in self.cond(c, s):
                if v is not False:
                    t = s2.copy() if v is None else s2
                    if self.learn(c, t, True):
                        yes.append(t)
                if v is not True:
                    if self.learn(c, s2, False):
                        no.append(s2)
        return self.cap(yes), self.cap(no)

    def cond(self, c, s):
        """states and, where known, the truth of the condition"""
        if c is None:
            return [(s, True)]
        if c.get('k') == 'un' and c['o'] == '!':
            return [(a, None if v is None else not v) for a, v in self.cond(c['e'], s)]
        if c.get('k') == 'bin' and c['o'] in ('&&', '||'):
            short = c['o'] == '||'
            out = []
            for a, v in self.cond(c['L'], s):
                if v is not (not short):
                    b = a.copy()
                    if self.learn(c['L'], b, short):
                        out.append((b, short))
                if v is not short:
                    b = a.copy()
                    if self.learn(c['L'], b, not short):
                        out += self.cond(c['R'], b)
            return self.pairs(out)
        k = self.ckey(c, s)
        if k is not None and k in s.facts:
            return [(s2, s.facts[k]) for s2, _ in self.ex(c, s)]
        return [(s2, bool(c['cv']) if 'cv' in c else None) for s2, _ in self.ex(c, s)]

    def pairs(self, out):
        if len(out) > LIMIT:
            self.over = True
        return out[:LIMIT]

    def learn(self, c, s, truth):
        if c is None:
            return truth
        while c.get('k') == 'ic' or c.get('k') == 'call' and c.get('cvn') and c.get('ob') is not None and not c['a'] and False:
            c = c['e']
        if c.get('k') == 'un' and c['o'] == '!':
            return self.learn(c['e'], s, not truth)
        if c.get('k') == 'bin' and c['o'] in ('&&', '||'):
            if truth == (c['o'] == '&&'):
                return self.learn(c['L'], s, truth) and self.learn(c['R'], s, truth)
            return True
        k = self.ckey(c, s)
        if k is None:
            return True
        if s.facts.get(k, truth) != truth:
            return False
        s.facts[k] = truth
        # an iterator that is not the end may be another than the one erased: nothing more is learnt
        return True

    def ckey(self, e, s):
        """the condition as something that can be met again"""
        if not isinstance(e, dict):
            return None
        if 'cv' in e and e.get('k') != 'call':
            return ('c', e['cv'])
        k = e.get('k')
        if k in ('ic', 'cast'):
            return self.ckey(e['e'], s)
        if k == 'ref':
            if e.get('dk') in ('var', 'parm'):
                return ('v', e['d'], s.ver.get(e['d'], 0))
            return None
        if k == 'null':
            return ('c', 0)
        if k == 'this':
            return ('this',)
        if k == 'mem':
            b = self.ckey(e['b'], s)
            return ('m', b, e['f'], s.ver.get('mem', 0)) if b else None
        if k == 'bin':
            a, b = self.ckey(e['L'], s), self.ckey(e['R'], s)
            return (e['o'], a, b) if a and b else None
        if k == 'un' and e['o'] in ('*', '-', '&', '!', '~'):
            a = self.ckey(e['e'], s)
            return (e['o'], a, s.ver.get('mem', 0)) if a else None
        if k == 'call' and e.get('f'):
            xs = [self.ckey(x, s) for x in ([e['ob']] if e.get('ob') is not None else []) + e['a']]
            if all(xs) and (e.get('cst') or e.get('op') in ('==', '!=', '<', '>', '->', '*')):
                return ('call', e['f'], tuple(xs), s.ver.get('mem', 0))
        return None

    # ---- expressions
    def discard(self, e, s):
        return [s2 for s2, v in self.ex(e, s)]

    def seq(self, es, s):
        out = [(s, [])]
        for e in es:
            nxt = []
            for a, vs in out:
                for b, v in self.ex(e, a):
                    nxt.append((b, vs + [v]))
            out = self.pairs(nxt)
        return out

    def ex(self, e, s):
        if e is None:
            return [(s, NOTHING)]
        h = getattr(self, 'x_' + e['k'], None)
        if h is not None:
            return h(e, s)
        kids = [v for v in e.values() if isinstance(v, dict) and 'k' in v] + \
               [y for v in e.values() if isinstance(v, list) for y in v if isinstance(y, dict) and 'k' in y]
        out = []
        for a, vs in self.seq(kids, s):
            for k, v in zip(kids, vs):
                self.consume(a, v, k, True)
            out.append((a, NOTHING))
        return out

    def x_ref(self, e, s):
        if e.get('dk') in ('var', 'parm'):
            d = e['d']
            self._names.setdefault(d, e['n'])
            k = self.kind_of(e['t'])
            p = s.al.get(d) or (('v', d),)
            if d in s.al:
                self.use_var(s, d, e, 'is used')
            pts = s.pts.get(d)
            return [(s, Val(p, pts[0] if pts and pts[1] != 'ref' else None, k, src=d if d not in s.al and k in ('it', 'ptr') else None))]
        if e.get('dk') in ('glob', 'slocal'):
            return [(s, Val((('g', e['d']),)))]
        if e.get('b') is not None:
            return [(a, NOTHING) for a, v in self.ex(e['b'], s)]
        return [(s, NOTHING)]

    def x_this(self, e, s):
        return [(s, Val(None, frozenset({(('this',),)}), 'ptr'))]

    def deref(self, s, v, e, owned=False):
        """the place behind a pointer, an iterator or an owner"""
        if v.src is not None:
            self.use_var(s, v.src, e, 'is dereferenced')
        if v.pts:
            return next(iter(v.pts)) if len(v.pts) == 1 else None
        if v.path is None:
            return None
        self.use_place(s, v.path, e, 'is dereferenced', True)
        return v.path + ((('*',) if owned else ('^',)),)

    def x_mem(self, e, s):
        out = []
        for a, v in self.ex(e['b'], s):
            p = self.deref(a, v, e) if e.get('ar') else v.path
            if p is None:
                out.append((a, Val(kind=self.kind_of(e['t']))))
                continue
            self.use_place(a, p + (('f', e['f']),), e, 'is used', None, part=True)
            p = p + (('f', e['f']),)
            t = self.P.ty(e['t'])
            out.append((a, Val(p, None, self.kind_of(e['t']))))
        return out

    def x_ic(self, e, s):
        out = []
        for a, v in self.ex(e['e'], s):
            if v.path is not None and e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase') and (e.get('lv') or e.get('xv')) and \
                    v.moved:
                v = Val(v.path + (('b',),), v.pts, v.kind, v.moved, v.src)
            out.append((a, v))
        return out

    def x_cast(self, e, s):
        out = []
        for a, v in self.ex(e['e'], s):
            if e.get('kk') in ('ConstructorConversion', 'UserDefinedConversion'):
                self.consume(a, v, e['e'], True)
                v = Val((('t', self.fresh()),))
            elif e.get('xv') and v.path is not None:
                v = Val(v.path, v.pts, v.kind, True, v.src)
            out.append((a, v))
        return out

    def x_idx(self, e, s):
        out = []
        for a, (b, i) in self.seq([e['b'], e['i']], s):
            p = self.deref(a, b, e) if self.P.ty(e['b']['t'])['k'] == 'ptr' else b.path
            out.append((a, Val(p + (('[]', self.ikey(e['i'], a)),) if p else None, None, self.kind_of(e['t']))))
        return out

    def ikey(self, e, s):
        if 'cv' in e:
            return ('c', e['cv'])
        k = self.ckey(e, s)
        return ('k', k) if k is not None else ('n', self.fresh())

    def x_un(self, e, s):
        out = []
        for a, v in self.ex(e['e'], s):
            o = e['o']
            if o == '*':
                out.append((a, Val(self.deref(a, v, e), None, self.kind_of(e['t']))))
            elif o == '&':
                if v.path is not None:
                    for b in [b for b in a.bad if b[0] == 'm' and b[1] == v.path]:
                        a.bad.pop(b)
                    out.append((a, Val(None, frozenset({v.path}), 'ptr')))
                else:
                    out.append((a, NOTHING))
            elif o in ('++', '--', 'p++', 'p--'):
                self.assigned(a, e['e'], v)
                if v.src is not None:
                    self.use_var(a, v.src, e, 'is stepped')
                    self.step(a, v.src)
                out.append((a, Val(v.path, a.pts.get(v.src, (None,))[0] if v.src is not None else None, v.kind, src=v.src)))
            else:
                self.consume(a, v, e['e'], False)
                out.append((a, NOTHING))
        return out

    def step(self, s, d):
        ps, k = s.pts.get(d, (None, None))
        if ps:
            s.pts[d] = (frozenset(p[:-1] + (('[]', ('n', self.fresh())),) if p[-1][0] == '[]' else p for p in ps), k)

    def x_bin(self, e, s):
        if e['o'] in ('&&', '||'):
            return [(a, NOTHING) for a, v in self.cond(e, s)]
        out = []
        for a, (l, r) in self.seq([e['L'], e['R']], s):
            if e['o'] == ',':
                out.append((a, r))
                continue
            if e['o'] in ('+', '-') and (l.pts or r.pts):
                w = l if l.pts else r
                ps = frozenset(p[:-1] + (('[]', ('n', self.fresh())),) if p[-1][0] == '[]' else p for p in w.pts)
                out.append((a, Val(None, ps, w.kind, src=w.src)))
                continue
            out.append((a, NOTHING))
        return out

    def x_cond(self, e, s):
        yes, no = self.branch(e['c'], [s])
        out = []
        for ss, k in ((yes, 'T'), (no, 'F')):
            for a in ss:
                out += self.ex(e[k], a)
        return self.pairs(out)

    def x_asg(self, e, s):
        out = []
        for a, (r, l) in self.seq([e['R'], e['L']], s):
            d = self.vard(e['L'])
            if e['o'] != '=':
                if l.src is not None:
                    self.use_var(a, l.src, e, 'is stepped')
                    self.step(a, l.src)
                self.assigned(a, e['L'], l)
                out.append((a, Val(l.path)))
                continue
            self.assigned(a, e['L'], l)
            if l.path is not None:
                for b in [b for b in a.bad if b[0] == 'm' and b[1][:len(l.path)] == l.path]:
                    a.bad.pop(b)
            if d is not None and d not in a.al:
                a.pts.pop(d, None)
                a.bad.pop(('d', d), None)
                k = self.kind_of(e['L']['t'])
                if k in ('ptr', 'it') and r.pts:
                    self.obs['reference, pointer or iterator kept'] += 1
                    if any(p[0][0] == 't' and not self.raw(p) for p in r.pts):
                        self.say(e, 'bind|%s' % self._names.get(d), '%s points into a temporary that ends here' % self._names.get(d))
                    a.pts[d] = (frozenset(r.pts), k)
                if r.src is not None and ('d', r.src) in a.bad:
                    a.bad[('d', d)] = a.bad[('d', r.src)]
                c = self.const(e['R'])
                if c is not None:
                    a.facts[('v', d, a.ver.get(d, 0))] = bool(c)
            out.append((a, Val(l.path, r.pts)))
        return out

    def vard(self, e):
        while e.get('k') == 'ic':
            e = e['e']
        return e['d'] if e.get('k') == 'ref' and e.get('dk') in ('var', 'parm') else None

    def assigned(self, s, e, v):
        """a scalar got another value: what was read through it is not met again"""
        d = self.vard(e)
        if d is not None and d not in s.al:
            s.ver[d] = s.ver.get(d, 0) + 1
            # places reached through it are others now
            for w, (ps, k) in list(s.pts.items()):
                if w != d and any(p[0] == ('v', d) and len(p) > 1 for p in ps):
                    s.pts.pop(w)
                    s.al.pop(w, None)
            for b in [b for b in s.bad if b[0] == 'm' and b[1][0] == ('v', d) and len(b[1]) > 1]:
                s.bad.pop(b)
        else:
            s.ver['mem'] = s.ver.get('mem', 0) + 1
            if v.path is not None:
                n = len(v.path)
                for w, (ps, k) in list(s.pts.items()):
                    if any(p[:n] == v.path and len(p) > n and p[n][0] == '^' for p in ps):
                        s.pts.pop(w)
                        s.al.pop(w, None)

    def x_new(self, e, s):
        out = []
        for a, v in self.ex(e.get('e'), s):
            self.consume(a, v, e, True)
            out.append((a, Val(None, None, 'ptr')))
        return out

    def x_del(self, e, s):
        out = []
        for a, v in self.ex(e['e'], s):
            self.obs['deletion'] += 1
            if v.src is not None:
                self.use_var(a, v.src, e, 'is deleted')
            p = v.path
            if p is not None:
                self.use_place(a, p, e, 'is deleted', True)
                self.end(a, p + (('^',),), e, 'it was deleted')
                a.bad[('m', p)] = (e.get('l'), 'deleted')
            for q in v.pts or ():
                self.end(a, q, e, 'it was deleted')
            a.ver['mem'] = a.ver.get('mem', 0) + 1
            out.append((a, NOTHING))
        return out

    def x_lam(self, e, s):
        for c in e.get('caps', ()):
            for a, v in self.ex(c.get('e'), s):
                if not c.get('ref'):
                    self.consume(a, v, c.get('e'), True)
        g = self.P.fns.get(e['f'])
        if not g or not g.get('body') or e.get('specs'):
            return [(s, NOTHING)]
        ret = self.fn
        self.fn, was = g, self.report
        b = s.copy()
        hold, self.returns = self.returns, set()
        o = self.stmt(g['body'], [b])
        self.fn, self.returns = ret, hold
        return [(a, NOTHING) for a in self.cap(merge([s] + o['norm']))]

    def x_init(self, e, s):
        out = []
        for a, vs in self.seq(e['a'], s):
            for x, v in zip(e['a'], vs):
                self.consume(a, v, x, True)
            out.append((a, Val((('t', self.fresh()),))))
        return out

    def x_throw(self, e, s):
        for a, v in self.ex(e.get('e'), s):
            pass
        return []

    def x_stmt(self, e, s):
        return [(a, NOTHING) for a in self.stmt(e['b'], [s])['norm']]

    # ---- calls
    def x_ctor(self, e, s):
        out = []
        for a, vs in self.seq(e['a'], s):
            tmp = (('t', self.fresh()),)
            if not e['a']:
                out.append((a, Val(tmp)))
                continue
            v = vs[0]
            it = self.kind_of(e['t'])
            if e.get('ck') in ('copy', 'move') or it == 'it':
                if v.moved and e['pk'][:1] in ('x', 'v') and it != 'it':
                    self.move(a, v, e)
                elif it != 'it':
                    self.read(a, v, e)
                out.append((a, Val(tmp if it != 'it' else None, v.pts if it == 'it' else None, it, src=v.src if it == 'it' else None)))
                continue
            self.pass_args(a, e, vs, None)
            p = None
            out.append((a, Val(tmp, p)))
        return out

    def pass_args(self, s, e, vs, g):
        pk = e.get('pk') or ''
        moved = []
        for i, v in enumerate(vs):
            k = pk[i] if i < len(pk) else 'v'
            if v.src is not None and (k in 'v' or k == 'c'):
                self.use_var(s, v.src, e, 'is handed on')
            if v.path is None or v.path[0][0] == 't':
                continue
            if k == 'x' and v.moved:
                moved.append((i, v))
            elif k == 'r' or k == 'p':
                # may be set to something new
                for b in [b for b in s.bad if b[0] == 'm' and b[1][:len(v.path)] == v.path]:
                    s.bad.pop(b)
                s.ver['mem'] = s.ver.get('mem', 0) + 1
                d = v.path[0][1] if len(v.path) == 1 and v.path[0][0] == 'v' else None
                if d is not None and k == 'r':
                    s.ver[d] = s.ver.get(d, 0) + 1
                    if d not in s.al:
                        s.pts.pop(d, None)
                        s.bad.pop(('d', d), None)
                    else:
                        pass
            elif k == 'c':
                self.read(s, v, e)
        for i, v in moved:
            u = self.sum.get(g['f']) if g is not None else None
            if g is not None and g.get('body') and u is not None and g['ps'][i:i + 1] and i not in u['moves']:
                continue
            self.move(s, v, e)
        # a move made for an argument and a use in another are not in order
        for i, x in enumerate(e.get('a') or ()):
            if i < len(pk) and pk[i] == 'v' and vs[i].path is not None and vs[i].path[0][0] == 't':
                m = self.moved_in(x, s)
                for j, y in enumerate(e['a']):
                    if j != i and m is not None and self.uses_place(y, m, s):
                        self.say(e, 'order|%s' % self.show(m), '%s is moved from for one argument and used for another' % self.show(m))

    def moved_in(self, x, s):
        while x.get('k') == 'ic' or x.get('k') == 'cast':
            x = x['e']
        if x.get('k') == 'ctor' and x.get('ck') == 'move' and len(x['a']) == 1:
            y = x['a'][0]
            while y.get('k') == 'ic':
                y = y['e']
            if y.get('k') == 'call' and y.get('q') in ('std::move', 'std::forward') and y.get('xv') and self.keeps(y['t']):
                z = y['a'][0]
                if z.get('k') == 'ref' and z.get('dk') in ('var', 'parm'):
                    return s.al.get(z['d']) or (('v', z['d']),)
        return None

    def uses_place(self, y, m, s):
        if isinstance(y, dict):
            if y.get('k') == 'ref' and y.get('dk') in ('var', 'parm'):
                return (s.al.get(y['d']) or (('v', y['d']),))[:len(m)] == m
            if y.get('k') in ('lam', 'sizeof'):
                return False
            return any(self.uses_place(v, m, s) for v in y.values())
        if isinstance(y, list):
            return any(self.uses_place(v, m, s) for v in y)
        return False

    def x_call(self, e, s):
        q = strip_targs(e.get('q') or '')
        if q in ('std::move', 'std::forward') and len(e['a']) == 1:
            return [(a, Val(v.path, v.pts, v.kind, bool(e.get('xv')) and v.path is not None, v.src)) for a, v in self.ex(e['a'][0], s)]
        if e.get('ob') is not None:
            out = []
            # assignments: the right side first
            es = [e['ob']] + e['a'] if q.rpartition('::')[2] != 'operator=' else e['a'] + [e['ob']]
            for a, vs in self.seq(es, s):
                if e.get('nr'):
                    continue
                if es[0] is not e['ob'] or not e['a'] and q.endswith('operator=') and False:
                    vs = vs[-1:] + vs[:-1]
                out += self.method(e, q, vs[0], vs[1:], a)
            return self.pairs(out)
        es = ([e['ce']] if e.get('ce') is not None else []) + e['a']
        out = []
        for a, vs in self.seq(es, s):
            if e.get('nr'):
                continue
            vs = vs[1:] if e.get('ce') is not None else vs
            out += self.free(e, q, vs, a)
        return self.pairs(out)

    def result(self, e, path=None, pts=None):
        k = self.kind_of(e['t'])
        if path is None and pts is None and not e.get('lv') and not e.get('xv') and k is None:
            path = (('t', self.fresh()),)
        return Val(path, pts, k)

    def free(self, e, q, vs, s):
        g = self.P.fns.get(e.get('f'))
        k = self.kind_of(e['t'])
        if q.startswith('std::'):
            m = q.rpartition('::')[2]
            if m == 'swap' and len(vs) == 2:
                for v in vs:
                    self.unknown(s, v)
                return [(s, NOTHING)]
            if m in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend') and len(vs) == 1 and vs[0].path is not None:
                self.read(s, vs[0], e)
                return [(s, Val(None, frozenset({vs[0].path + (('[]', m.lstrip('c') if m[0] == 'c' else m),)}), 'it'))]
            self.pass_args(s, e, vs, None)
            if k == 'it' or k == 'ptr':
                w = next((v for v in vs if v.pts), None)
                if w is not None and m not in ('copy', 'transform', 'back_inserter', 'strtol'):
                    ps = frozenset(p[:-1] + (('[]', ('n', self.fresh())),) if p[-1][0] == '[]' else p for p in w.pts)
                    return [(s, Val(None, ps, k))]
            if m in ('get',) and vs and vs[0].path is not None and e.get('lv'):
                return [(s, Val(vs[0].path + (('f', m + str(e.get('ta'))[:40]),)))]
            if m in ('addressof',) and vs and vs[0].path is not None:
                return [(s, Val(None, frozenset({vs[0].path}), 'ptr'))]
            if e.get('op') in ('==', '!=', '<', '>') or m.startswith('operator'):
                for v in vs:
                    if v.src is not None and v.kind == 'it':
                        self.use_var(s, v.src, e, 'is compared')
                if e.get('op') in ('<<', '>>') and vs and e.get('lv'):
                    return [(s, Val(vs[0].path))]
                if e.get('op') in ('+', '-') and k == 'it':
                    w = next((v for v in vs if v.pts), None)
                    if w is not None:
                        return [(s, Val(None, frozenset(p[:-1] + (('[]', ('n', self.fresh())),) for p in w.pts), 'it'))]
            return [(s, self.result(e))]
        if q.startswith('__gnu_cxx::') or q == '':
            for v in vs:
                if v.src is not None and v.kind == 'it':
                    self.use_var(s, v.src, e, 'is compared')
            if k == 'it':
                w = next((v for v in vs if v.pts), None)
                if w is not None:
                    return [(s, Val(None, frozenset(p[:-1] + (('[]', ('n', self.fresh())),) for p in w.pts), 'it'))]
            return [(s, self.result(e))]
        if q in ('free', 'std::free') and vs:
            v = vs[0]
            self.obs['deletion'] += 1
            if v.path is not None:
                self.use_place(s, v.path, e, 'is freed', True)
                self.end(s, v.path + (('^',),), e, 'it was freed')
                s.bad[('m', v.path)] = (e.get('l'), 'freed')
            return [(s, NOTHING)]
        return self.own(e, g, None, vs, s)

    def own(self, e, g, ob, vs, s):
        """a function of the repository: what it does to what it is given, and what it answers a part of"""
        self.pass_args(s, e, vs, g)
        if not e.get('cst'):
            s.ver['mem'] = s.ver.get('mem', 0) + 1
        u = self.sum.get(g['f']) if g is not None and not e.get('vt') else None
        if u is None:
            return [(s, self.result(e))]
        for p, how, text in sorted(u['effects'], key=repr):
            if how == 'gone':
                for i, x in enumerate(g['ps']):
                    if x['d'] == p[0][1] and i < len(vs) and vs[i].src is not None:
                        s.bad.setdefault(('d', vs[i].src), (e.get('l'), 'its element was erased by %s' % g['n']))
                        if vs[i].src in self.params:
                            self.effects.add(((('v', vs[i].src),), 'gone', text))
                continue
            t = self.subst(p, g, ob, vs)
            if t is not None:
                self.effect(s, t, how, e, 'by %s (%s)' % (g['n'], text.split(' (')[0]))
        k = self.kind_of(e['t']) if not (e.get('lv') or e.get('xv')) else 'ref'
        if k and u['returns'] and all(p is not None for _, p in u['returns']):
            ts = {self.subst(p, g, ob, vs) for w, p in u['returns']}
            if None not in ts:
                if k == 'ref':
                    if len(ts) == 1:
                        return [(s, Val(next(iter(ts)), None, self.kind_of(e['t'])))]
                else:
                    return [(s, Val(None, frozenset(ts), k))]
        if k == 'ref' and ob is not None and not vs and g is not None and e.get('cst') is None and False:
            return [(s, Val(ob + (('()', g['f'], g['n']),)))]
        return [(s, self.result(e))]

    def subst(self, p, g, ob, vs):
        t = self.subst1(p, g, ob, vs)
        # what a call answers does not prolong the life of a temporary
        return (t[0][:2] + ('call',),) + t[1:] if t is not None and t[0][0] == 't' else t

    def subst1(self, p, g, ob, vs):
        r = p[0]
        if r[0] == 'this':
            return ob + p[1:] if ob is not None else None
        if r[0] == 'g':
            return p
        if r[0] == 'v':
            for i, x in enumerate(g['ps']):
                if x['d'] == r[1] and i < len(vs):
                    v = vs[i]
                    if self.P.ty(x['t'])['k'] in ('ref', 'rref'):
                        return v.path + p[1:] if v.path is not None else None
                    if len(p) > 1 and p[1][0] == '^':
                        if v.pts:
                            return next(iter(v.pts)) + p[2:] if len(v.pts) == 1 else None
                        return v.path + p[1:] if v.path is not None else None
        return None

    def obplace(self, e, v, s):
        if e.get('ar'):
            return self.deref(s, v, e)
        return v.path

    def method(self, e, q, ob, vs, s):
        cls, _, m = q.rpartition('::')
        g = self.P.fns.get(e.get('f'))
        k = self.kind_of(e['t'])
        # iterators
        if cls.startswith(ITERS):
            if m == 'operator=':
                d = self.vard(e['ob'])
                if d is not None:
                    s.ver[d] = s.ver.get(d, 0) + 1
                    s.pts.pop(d, None)
                    s.bad.pop(('d', d), None)
                    self.assigned(s, e['ob'], ob)
                    v = vs[0] if vs else NOTHING
                    if v.pts:
                        self.obs['reference, pointer or iterator kept'] += 1
                        s.pts[d] = (frozenset(v.pts), 'it')
                        if v.src is not None and ('d', v.src) in s.bad:
                            s.bad[('d', d)] = s.bad[('d', v.src)]
                return [(s, Val(ob.path))]
            if m in ('operator*', 'operator->', 'operator[]'):
                p = self.deref(s, ob, e)
                if m == 'operator->':
                    return [(s, Val(None, frozenset({p}) if p else None, 'ptr'))]
                if m == 'operator[]' and p:
                    p = p[:-1] + (('[]', ('n', self.fresh())),)
                return [(s, Val(p, None, k))]
            if ob.src is not None:
                self.use_var(s, ob.src, e, 'is stepped' if m in ('operator++', 'operator--') else 'is used')
            if m in ('operator++', 'operator--', 'operator+=', 'operator-=') and ob.src is not None:
                d = ob.src
                s.ver[d] = s.ver.get(d, 0) + 1
                old = s.pts.get(d, (None, None))[0]
                self.step(s, d)
                if e['a']:
                    return [(s, Val(None, old, 'it'))]
                return [(s, Val(ob.path, s.pts.get(d, (None, None))[0], 'it', src=d))]
            if m in ('operator+', 'operator-', 'base') and k == 'it' and ob.pts:
                return [(s, Val(None, frozenset(p[:-1] + (('[]', ('n', self.fresh())),) if p[-1][0] == '[]' else p for p in ob.pts), 'it'))]
            return [(s, self.result(e))]
        p = self.obplace(e, ob, s)
        if cls in OWNER or cls == 'std::shared_ptr':
            return self.owner(e, cls, m, p, ob, vs, s)
        if cls in CONT:
            return self.container(e, cls, m, p, vs, s)
        if cls.startswith('std::'):
            if p is not None:
                if m in REINIT:
                    self.fresh_value(s, p)
                else:
                    self.use_place(s, p, e, 'is used')
            self.pass_args(s, e, vs, None)
            return [(s, self.result(e))]
        if p is not None and m == 'operator=':
            self.pass_args(s, e, vs, g)
            self.fresh_value(s, p)
            self.inside(s, p, e, 'assigned')
            return [(s, Val(p))]
        if p is not None and p[0][0] != 't':
            self.use_place(s, p, e, 'is used')
        return self.own(e, g, p, vs, s)

    def inside(self, s, p, e, how):
        """a whole value is assigned: what it kept is replaced"""
        n = len(p)
        for w, (ps, kind) in list(s.pts.items()):
            if any(x[:n] == p and any(y[0] in ('[]', '*') for y in x[n:]) for x in ps):
                s.bad.setdefault(('d', w), (e.get('l'), '%s, which it pointed into, was %s' % (self.show(p), how)))

    def owner(self, e, cls, m, p, ob, vs, s):
        k = self.kind_of(e['t'])
        uniq = cls in OWNER
        if m in ('operator*', 'operator->', 'get'):
            if p is None:
                return [(s, Val(None, None, k))]
            if m != 'get':
                self.use_place(s, p, e, 'is dereferenced', True)
            q = p + (('*',) if uniq else ('^',),)
            if m == 'operator*':
                return [(s, Val(q, None, k))]
            return [(s, Val(None, frozenset({q}), 'ptr'))]
        if m == 'operator=' or m == 'reset':
            if vs and vs[0].moved and vs[0].path != p:
                self.move(s, vs[0], e)
            if p is not None:
                if uniq:
                    self.end(s, p + (('*',),), e, 'its owner %s was given another object' % self.show(p) if m == 'operator=' or vs else
                             'its owner %s was reset' % self.show(p))
                    self.changed(p + (('*',),), 'all', '%s is %s' % (self.show(p), 'assigned' if m == 'operator=' else 'reset'))
                self.fresh_value(s, p)
                if not vs and m == 'reset':
                    s.bad[('m', p)] = (e.get('l'), 'reset')
            return [(s, Val(p))]
        if m == 'release':
            if p is not None:
                self.detach(s, p)
                s.bad[('m', p)] = (e.get('l'), 'released')
            return [(s, Val(None, None, 'ptr'))]
        if m == 'swap':
            for v in [ob] + vs:
                self.unknown(s, v)
        return [(s, self.result(e))]

    def detach(self, s, p):
        """the object goes on living elsewhere"""
        n = len(p)
        for w, (ps, k) in list(s.pts.items()):
            if any(x[:n] == p and len(x) > n for x in ps):
                s.pts.pop(w)
                s.al.pop(w, None)

    def fresh_value(self, s, p):
        for b in [b for b in s.bad if b[0] == 'm' and b[1][:len(p)] == p]:
            s.bad.pop(b)
        s.ver['mem'] = s.ver.get('mem', 0) + 1

    def unknown(self, s, v):
        if v.path is not None:
            self.detach(s, v.path)
            self.fresh_value(s, v.path)
        d = v.src
        if d is not None:
            s.pts.pop(d, None)

    def container(self, e, cls, m, p, vs, s):
        k = self.kind_of(e['t'])
        if p is not None and m not in REINIT:
            self.use_place(s, p, e, 'is used')
        const = bool(e.get('cst'))
        if m in ('operator[]', 'at', 'front', 'back'):
            if cls not in VEC | DEQ and m == 'operator[]' and p is not None and cls in HASH:
                self.effect(s, p, 'its', e, 'operator[]')
            key = ('k', m) if m in ('front', 'back') else self.ikey(e['a'][0], s) if e['a'] else ('n', self.fresh())
            key = key if m not in ('front', 'back') else m
            return [(s, Val(p + (('[]', key),) if p is not None else None, None, k))]
        if m in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend'):
            key = 'end' if 'end' in m else 'begin'
            return [(s, Val(None, frozenset({p + (('[]', key),)}) if p is not None else None, 'it'))]
        if m in ('find', 'lower_bound', 'upper_bound') and k == 'it':
            return [(s, Val(None, frozenset({p + (('[]', ('n', self.fresh())),)}) if p is not None else None, 'it'))]
        if m in ('c_str', 'data'):
            return [(s, Val(None, frozenset({p + (('[]', 'begin'),)}) if p is not None else None, 'ptr'))]
        if m == 'swap':
            for v in vs:
                self.unknown(s, v)
            self.unknown(s, Val(p))
            return [(s, NOTHING)]
        self.pass_args(s, e, vs, None)
        if p is None or const:
            return [(s, self.result(e))]
        how = None
        if m in GROW:
            if p in s.res:
                how = None
            elif cls in VEC:
                how = 'all'
            elif cls in DEQ:
                how = 'its'
        elif m in ('push_front', 'emplace_front') and cls in DEQ:
            how = 'its'
        elif cls in NODE and m in ('insert', 'emplace', 'push_front', 'emplace_front', 'reserve', 'replace'):
            how = None
        elif m in ('insert', 'emplace') and cls in HASH:
            how = 'its'
        elif m in ALL:
            how = 'all' if not (m == 'reserve' and p in s.res) else None
        elif m in ENDS:
            how = 'back' if m == 'pop_back' else 'front'
        if m == 'reserve':
            s.res = s.res | {p}
        elif m in ('clear', 'operator=', 'shrink_to_fit') and p in s.res:
            s.res = s.res - {p}
        # an element handed in while the elements move
        if how:
            self.effect(s, p, how, e, m)
        if m == 'erase':
            for x, v in zip(e['a'], vs):
                if v.kind == 'it' and v.src is not None and x is e['a'][0]:
                    s.bad.setdefault(('d', v.src), (e.get('l'), 'the element was erased from %s' % self.show(p)))
                    if v.src in self.params:
                        self.effects.add(((('v', v.src),), 'gone', m))
            if cls in VEC | DEQ:
                self.effect(s, p, 'end', e, m)
            s.ver['mem'] = s.ver.get('mem', 0) + 1
        else:
            s.ver['mem'] = s.ver.get('mem', 0) + 1
        if m in REINIT:
            self.fresh_value(s, p)
        if k == 'it':
            return [(s, Val(None, frozenset({p + (('[]', ('n', self.fresh())),)}), 'it'))]
        if m in ('emplace_back', 'emplace_front') and e.get('lv'):
            return [(s, Val(p + (('[]', 'back' if m == 'emplace_back' else 'front'),), None, k))]
        if e.get('lv'):
            return [(s, Val(p))]
        return [(s, self.result(e))]

    def changed(self, p, how, text):
        if p[0][0] == 'this' or p[0][0] == 'v' and p[0][1] in self.params and (
                self.isparamref(p[0][1]) or len(p) > 1 and p[1][0] == '^'):
            if not any(x[0] == '()' for x in p):
                self.effects.add((self.plainkey(p), how, text))

    def effect(self, s, p, how, e, m):
        """the elements of container `p` move or end"""
        self.changed(p, how, m)
        text = '%s was changed (%s)' % (self.show(p), m)
        if how == 'all' and p[-1][0] == '*':      # the object of an owner
            self.end(s, p, e, 'its owner was given another object ' + m)
            return
        n = len(p)
        if any(x[0] == '[]' and x[1] is None for x in p):
            return                                 # some element's container
        for w, (ps, kind) in list(s.pts.items()):
            for x in ps:
                if x[:n] != p or len(x) <= n or x[n][0] != '[]':
                    continue
                direct = len(x) == n + 1
                key = x[n][1]
                if how == 'all' or how == 'its' and kind == 'it' and direct or \
                        how in ('back', 'front', 'end') and (key == how or how in ('back', 'end') and key == 'end' and kind == 'it') \
                        and (key == 'end' or how != 'end'):
                    s.bad.setdefault(('d', w), (e.get('l'), text))
        for b in [b for b in s.bad if b[0] == 'm' and b[1][:n] == p and len(b[1]) > n]:
            s.bad.pop(b)
        s.ver['mem'] = s.ver.get('mem', 0) + 1

    def end(self, s, p, e, text):
        """the object at `p` ends"""
        n = len(p)
        for w, (ps, kind) in list(s.pts.items()):
            if any(x[:n] == p for x in ps):
                s.bad.setdefault(('d', w), (e.get('l'), text))
        s.ver['mem'] = s.ver.get('mem', 0) + 1

    # ---- moves and uses
    def move(self, s, v, e):
        p = v.path
        if p is None or p[0][0] == 't':
            return
        if not self.keeps_place(v, e):
            return
        self.obs['move'] += 1
        d = p[0][1] if p[0][0] == 'v' else None
        if d in self.params and len(p) == 1:
            for i, x in enumerate(self.fn['ps']):
                if x['d'] == d:
                    self.moves.add(i)
        if any(x[0] in ('^', '[]') for x in p[1:]) and not self.stable(p):
            self.detach(s, p)
            return
        self.use_place(s, p, e, 'is moved from again')
        self.detach(s, p)
        s.bad[('m', p)] = (e.get('l'), 'moved from')

    def stable(self, p):
        return all(x[0] != '[]' or isinstance(x[1], tuple) and x[1][0] in ('c', 'k') for x in p)

    def keeps_place(self, v, e):
        return True

    def consume(self, s, v, e, value):
        """an expression whose value is taken"""
        if v.moved:
            return
        if v.src is not None and v.kind == 'it':
            self.use_var(s, v.src, e, 'is used')

    def read(self, s, v, e):
        if v.path is not None:
            self.use_place(s, v.path, e, 'is read', None)

    def use_var(self, s, d, e, how):
        b = s.bad.get(('d', d))
        if b:
            n = self._names.get(d) if not isinstance(d, tuple) else 'the loop'
            self.say(e, 'use|%s|%s' % (n, b[1]), '%s %s after line %s, where %s' % (n, how, b[0], b[1]))
            s.bad.pop(('d', d))
            s.pts.pop(d, None)
            return False
        return True

    def use_it(self, s, i, x, how):
        b = s.bad.get(('d', i))
        if b:
            self.say(x, 'loop|%s' % b[1], '%s after line %s, where %s' % (how, b[0], b[1]))
            s.bad.pop(('d', i))
            return False
        return True

    def use_place(self, s, p, e, how, deref=None, part=False):
        """deref: True where the object behind an owner or pointer is wanted; None: any read of the value or a part;
        part: the last step names a part, which is not yet read"""
        for n in range(len(p) - part, 0, -1):
            b = s.bad.get(('m', p[:n]))
            if not b:
                continue
            what = b[1]
            if what in ('reset', 'released') and not (deref or n < len(p)):
                return
            if what == 'moved from' and self.owner_place(p[:n], e, n == len(p)) and not (deref or n < len(p)):
                return
            if what in ('deleted', 'freed') and not (deref or n < len(p)):
                return
            self.say(e, 'use|%s|%s' % (self.show(p[:n]), what), '%s %s after line %s, where it was %s' % (
                self.show(p[:n]), how, b[0], what))
            s.bad.pop(('m', p[:n]))
            return

    def owner_place(self, p, e, whole):
        if not whole or self.P.ty(e.get('t')).get('k') != 'bool':
            return False
        if e.get('k') == 'call' and (e.get('op') in ('==', '!=', '<', '>')):
            # an owner given away is null; the text or the elements of a container given away are not known
            return not any(strip_targs(str(self.P.ty(a.get('t')).get('s') or '').replace('const ', '').rstrip(' &')) in CONT
                           for a in e.get('a') or ())
        return True


def program(P, units=None, rounds=4):
    """summaries of all functions"""
    sums = {}
    todo = [f for f in P.fns.values() if f.get('body') is not None]
    for r in range(rounds):
        changed = False
        for f in todo:
            L = analyse(P, sums, f)
            new = {'effects': frozenset(x for x in L.effects if len(x[0]) <= 6), 'returns': frozenset(L.returns),
                   'moves': frozenset(L.moves)}
            if sums.get(f['f']) != new:
                sums[f['f']] = new
                changed = True
        if not changed:
            break
    return sums


def analyse(P, sums, f, report=None):
    L = Life(P, sums, f, report)
    L._names = {p['d']: p['n'] for p in f['ps']}
    return L.run()

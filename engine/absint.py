"""Path-sensitive forward dataflow over the resolved syntax trees.

Abstract domain: a store from abstract locations to value numbers, a set of predicate
facts (truth of null / equality / order atoms over value numbers, closed by a zone, i.e.
difference-bound, check) and an effect trace.  Branches partition the trace, loops are
summarised: everything the body may change is forgotten at the header, apart from
induction variables, and the body is read once for a generic iteration.  Repository
functions are inlined to a bound; anything else has a model below or is opaque.
No path is handed to a solver and nothing is executed.
"""
import sys
import time
from front import strip_targs

sys.setrecursionlimit(20000)

NULL = ('null',)
MOVED = ('moved',)
EMPTY = ('empty',)
TRUE = ('c', 1)
FALSE = ('c', 0)


def C(n):
    return ('c', n)


DEADLINE = time.time() + 700


class Budget(Exception):
    pass


class St:
    __slots__ = ('store', 'facts', 'ev', 'kids')

    def __init__(self, store=None, facts=None, ev=(), kids=None):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}
        self.ev = ev
        self.kids = kids if kids is not None else {}

    def copy(self):
        return St(dict(self.store), dict(self.facts), self.ev, {k: set(v) for k, v in self.kids.items()})

    def emit(self, *e):
        self.ev = self.ev + (tuple(x['f'] if type(x) is dict and 'f' in x else x for x in e),)


SUB = ('fld', 'elem', 'vf')


def base_of(loc):
    return loc[1] if loc[0] in SUB else None


def at(p):
    """location a pointer value points to"""
    if p[0] == 'addr' or p[0] == 'new':
        return p[1]
    if p[0] == 'it':
        if p[2] == C(0) and p[1][0] == 'at':
            return p[1]
        return ('elem', p[1], p[2])
    return ('at', p)


def project(v, step):
    """value of a part of a record value"""
    if v[0] == 'rec':
        for (k, w) in v[2]:
            if k == step:
                return w
        return project(v[1], step)
    if v[0] == 'copyof':
        return (step[0], v[1], step[1])
    if v[0] == 'arr' and step[0] == 'elem' and step[1][0] == 'c' and 0 <= step[1][1] < len(v[1]):
        return v[1][step[1][1]]
    if v[0] == 'push' and step[0] == 'elem' and step[1] == size_of(v[1]):
        return v[2]
    return (step[0], v, step[1])


def read(st, loc):
    v = _read(st, loc)
    kids = st.kids.get(loc)
    if kids:
        fs = []
        for k in sorted(kids, key=repr):
            sub = (k[0], loc, k[1])
            fs.append((k, read(st, sub)))
        if fs:
            if v[0] == 'rec':
                d = dict(v[2])
                d.update(dict(fs))
                return ('rec', v[1], tuple(sorted(d.items(), key=repr)))
            return ('rec', v, tuple(fs))
    return v


def _read(st, loc):
    s = st.store
    if loc in s:
        return s[loc]
    if loc[0] in SUB:
        b = _read(st, loc[1])
        if b is loc[1] or b == loc[1]:
            return loc
        return project(b, (loc[0], loc[2]))
    return loc


def write(st, loc, v):
    drop_below(st, loc)
    st.store[loc] = v
    l = loc
    while l[0] in SUB:
        st.kids.setdefault(l[1], set()).add((l[0], l[2]))
        l = l[1]


def drop_below(st, loc):
    ks = st.kids.pop(loc, None)
    if ks:
        for k in ks:
            sub = (k[0], loc, k[1])
            st.store.pop(sub, None)
            drop_below(st, sub)


def size_of(v):
    if v == EMPTY:
        return C(0)
    if v[0] == 's':
        return C(len(v[1]))
    if v[0] == 'push':
        return add(size_of(v[1]), 1)
    if v[0] == 'arr':
        return C(len(v[1]))
    if v[0] == 'rec':         # its elements were changed, not how many there are
        return size_of(v[1])
    return ('size', v)


def add(t, k):
    if k == 0:
        return t
    if t[0] == 'c':
        return C(t[1] + k)
    if t[0] == 'add':
        return add(t[1], t[2] + k)
    return ('add', t, k)


def lin(t):
    """t = base + k"""
    if t[0] == 'add':
        return t[1], t[2]
    if t[0] == 'c':
        return None, t[1]
    return t, 0


def nonneg(t):
    return t[0] in ('size', 'ix', 'strlen') or (t[0] == 'un')


ATOMIC_TRUE = ('addr', 's', 'fn', 'new', 'lam')


class Facts:
    """closed look-ups over the fact set"""

    @staticmethod
    def zone(facts):
        edges = {}

        def le(a, b, k):  # a - b <= k
            if (a, b) not in edges or edges[(a, b)] > k:
                edges[(a, b)] = k
        nodes = set([None])
        for at_, val in facts.items():
            if at_[0] == 'lt':
                a, ka = lin(at_[1])
                b, kb = lin(at_[2])
                nodes.add(a), nodes.add(b)
                if val:
                    le(a, b, kb - ka - 1)
                else:
                    le(b, a, ka - kb)
            elif at_[0] == 'eq' and val:
                a, ka = lin(at_[1])
                b, kb = lin(at_[2])
                if at_[1][0] in ('s', 'null') or at_[2][0] in ('s', 'null'):
                    continue
                nodes.add(a), nodes.add(b)
                le(a, b, kb - ka)
                le(b, a, ka - kb)
            elif at_[0] == 'T':
                a, ka = lin(at_[1])
                if not val:
                    nodes.add(a)
                    le(a, None, -ka)
                    le(None, a, ka)
                elif nonneg(at_[1]):
                    nodes.add(a)
                    le(None, a, ka - 1)
        for n in nodes:
            if n is not None and nonneg(n):
                le(None, n, 0)
        return nodes, edges

    @staticmethod
    def bound(facts, a, b):
        """least known k with a - b <= k, or None"""
        a, ka = lin(a)
        b, kb = lin(b)
        if a == b:
            return ka - kb
        nodes, edges = Facts.zone(facts)
        nodes = set(nodes) | {a, b}
        if a is not None and nonneg(a):
            edges.setdefault((None, a), 0)
        if b is not None and nonneg(b):
            edges.setdefault((None, b), 0)
        dist = {a: 0}
        for _ in range(len(nodes)):
            ch = False
            for (x, y), k in edges.items():
                if x in dist and (y not in dist or dist[y] > dist[x] + k):
                    dist[y] = dist[x] + k
                    ch = True
            if not ch:
                break
        if b in dist:
            return dist[b] + ka - kb
        return None


def mk_eq(a, b):
    if a == b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x[0] == 'cmp3' and y == C(0):
            return mk_eq(x[1], x[2])
    if a[0] == 'c' and b[0] == 'c':
        return C(int(a[1] == b[1]))
    if a[0] == 's' and b[0] == 's':
        return C(int(a[1] == b[1]))
    for x, y in ((a, b), (b, a)):
        if x == NULL or x == C(0):
            if y[0] in ATOMIC_TRUE or y == NULL:
                return FALSE if y != NULL else TRUE
            if y[0] in ('eq', 'lt', 'not'):
                return mk_not(y)
            return ('not', ('T', y))
        if x == TRUE and y[0] in ('eq', 'lt', 'not', 'T'):
            return y
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
        return mk_eq(a[2], b[2])
    a0, ka = lin(a)
    b0, kb = lin(b)
    if a0 == b0 and a0 is not None:
        return C(int(ka == kb))
    if repr(a) > repr(b):
        a, b = b, a
    return ('eq', a, b)


def mk_not(a):
    if a[0] == 'not':
        return a[1]
    if a[0] == 'c':
        return C(int(not a[1]))
    if a == NULL:
        return TRUE
    return ('not', a)


def mk_lt(a, b):
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
        return mk_lt(a[2], b[2])
    a0, ka = lin(a)
    b0, kb = lin(b)
    if a0 == b0:
        return C(int(ka < kb))
    return ('lt', a, b)


def decide(st, v):
    """truth of a value in a state, or None"""
    k = v[0]
    if k == 'c':
        return v[1] != 0
    if v == NULL:
        return False
    if k in ATOMIC_TRUE:
        return True
    if k == 'not':
        r = decide(st, v[1])
        return None if r is None else not r
    if k not in ('eq', 'lt', 'T'):
        v = ('T', v)
        k = 'T'
    f = st.facts
    if v in f:
        return f[v]
    if k == 'T':
        x = v[1]
        if x[0] in ATOMIC_TRUE:
            return True
        if x in (NULL, FALSE, EMPTY):
            return False
        # eq facts with constants
        for at_, val in f.items():
            if at_[0] == 'eq' and val and x in at_[1:]:
                o = at_[2] if at_[1] == x else at_[1]
                if o[0] == 'c':
                    return o[1] != 0
                if o[0] in ATOMIC_TRUE:
                    return True
        b = Facts.bound(f, C(0), x)
        if b is not None and b < 0:
            return True
        return None
    if k == 'eq':
        a, b = v[1], v[2]
        for x, y in ((a, b), (b, a)):
            for at_, val in f.items():
                if at_[0] == 'eq' and val and x in at_[1:]:
                    o = at_[2] if at_[1] == x else at_[1]
                    if o[0] == 'c' and y[0] == 'c' and o != y:
                        return False
                    if o[0] == 's' and y[0] == 's' and o != y:
                        return False
                if at_ == ('T', x) and not val and y[0] == 'c' and y[1] != 0:
                    return False
        if a[0] in ('s', 'null') or b[0] in ('s', 'null'):
            return None
        d1, d2 = Facts.bound(f, a, b), Facts.bound(f, b, a)
        if d1 is not None and d1 < 0 or d2 is not None and d2 < 0:
            return False
        if d1 is not None and d2 is not None and d1 <= 0 and d2 <= 0:
            return True
        return None
    if k == 'lt':
        d = Facts.bound(f, v[1], v[2])
        if d is not None and d < 0:
            return True
        d = Facts.bound(f, v[2], v[1])
        if d is not None and d <= 0:
            return False
        return None


def assume(st, v, val):
    """state refined with v == val, or None"""
    d = decide(st, v)
    if d is not None:
        return st if d == val else None
    while v[0] == 'not':
        v, val = v[1], not val
    if v[0] not in ('eq', 'lt', 'T'):
        v = ('T', v)
    st.facts[v] = val
    return st


class Frame:
    __slots__ = ('fn', 'id', 'bind', 'this', 'depth', 'stack')

    def __init__(self, fn, id, bind, this, depth, stack):
        self.fn, self.id, self.bind, self.this, self.depth, self.stack = fn, id, bind, this, depth, stack


class Out:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


SIDE = ('call', 'asg', 'new', 'del', 'throw', 'ctor', 'lam', 'stmt')


class Interp:
    def __init__(self, prog, max_depth=8, max_states=400, inline=None, noinline=(), fork_throw=None, hooks=None):
        self.P = prog
        self.max_depth = max_depth
        self.max_states = max_states
        self.inline_pred = inline
        self.noinline = set(noinline)
        self.nfr = 0
        self.nu = 0
        self.exc = []
        self.fork_throw = fork_throw
        self.hooks = hooks or {}
        self.notes = set()
        self.visited = set()   # functions read
        self.steps = 0
        self.max_steps = 400000
        self.rectypes = {}
        self.ltypes = {}
        self.on_deref = None   # callback(st, ptrvalue, node, frame)
        self.on_mem = None     # callback(st, memberloc, node, frame)
        self.on_pos = None     # callback(st, contloc, position, node, frame) of calls that refuse positions past the end
        self.on_elem = None    # callback(st, contloc, index, node, frame)
        self.loopstack = []

    # ---- entry ------------------------------------------------------------
    def run(self, fn, this=('obj', 'this'), args=None, st=None):
        st = st or St()
        self.exc = [[]]
        fr = self.frame(fn, this, None)
        for i, p in enumerate(fn['ps']):
            t = self.P.ty(p['t'])
            a = args[i] if args and i < len(args) and args[i] is not None else None
            if t['k'] in ('ref', 'rref'):
                fr.bind[p['d']] = a if a is not None else ('obj', p['n'] or 'p%d' % i)
            else:
                l = ('lv', fr.id, p['d'])
                fr.bind[p['d']] = l
                write(st, l, a if a is not None else ('obj', p['n'] or 'p%d' % i))
        outs = self.body(fn, st, fr)
        outs += [Out('throw', s, v) for (s, v) in self.exc[0]]
        return outs

    def frame(self, fn, this, parent):
        self.nfr += 1
        self.visited.add(fn['f'])
        return Frame(fn, self.nfr, {}, this, parent.depth + 1 if parent else 0,
                     (parent.stack if parent else ()) + (fn['f'],))

    def body(self, fn, st, fr):
        states = [st]
        for i in fn.get('inits', ()):
            nxt = []
            for s in states:
                if 'f' in i:
                    target = ('fld', fr.this, i['f'])
                    isref = self.field_is_ref(fn['cls'] + '::' + i['f'])
                    if isref:
                        for s2, l in self.lv(i['e'], s, fr):
                            write(s2, target, ('addr', l))
                            nxt.append(s2)
                        continue
                    for s2 in self.init_into(i['e'], s, fr, target):
                        s2.emit('finit', target, None, i['e'].get('l') if i['e'] else None)
                        nxt.append(s2)
                elif i.get('e') is not None:
                    for s2 in self.init_into(i['e'], s, fr, fr.this):
                        nxt.append(s2)
                else:
                    nxt.append(s)
            states = nxt
        outs = []
        for s in states:
            if fn.get('body'):
                outs += self.stmt(fn['body'], s, fr)
            else:
                outs.append(Out('norm', s))
        res = []
        for o in outs:
            if o.kind == 'norm':
                res.append(Out('ret', o.st, None))
            else:
                res.append(o)
        return res

    def field_is_ref(self, fq):
        if fq in self.rectypes:
            return self.rectypes[fq]
        cls, _, f = fq.rpartition('::')
        r = self.P.recs.get(cls)
        res = False
        if r:
            for x in r['fields']:
                if x['n'] == f and self.P.ty(x['t'])['k'] in ('ref', 'rref'):
                    res = True
        self.rectypes[fq] = res
        return res

    def fresh(self, tag='u'):
        self.nu += 1
        return (tag, self.nu)

    def tick(self):
        self.steps += 1
        if not self.steps % 4096 and time.time() > DEADLINE:
            raise Budget('time budget')
        if self.steps > self.max_steps:
            raise Budget('step budget')

    def cap(self, xs):
        if len(xs) > self.max_states:
            raise Budget('state budget')
        return xs

    # ---- statements ---------------------------------------------------------
    def seq(self, stmts, st, fr, start=0):
        outs = []
        cur = [st]
        for x in stmts[start:]:
            nxt = []
            for s in cur:
                for o in self.stmt(x, s, fr):
                    if o.kind == 'norm':
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            cur = self.cap(nxt)
            if not cur:
                break
        return outs + [Out('norm', s) for s in cur]

    def locals_of(self, stmts):
        out = []
        for x in stmts:
            if isinstance(x, dict) and x.get('s') == 'decl':
                for v in x['v']:
                    t = self.P.ty(v['t'])
                    if t['k'] == 'rec' and not v.get('static'):
                        out.append((v['d'], t['q'] if 'q' in t else t['s'], v))
        return out

    def stmt(self, x, st, fr):
        self.tick()
        if x is None:
            return [Out('norm', st)]
        k = x['s']
        h = getattr(self, 's_' + k, None)
        if h is None:
            self.notes.add('statement kind %s not modelled' % k)
            return [Out('norm', st)]
        return h(x, st, fr)

    def s_blk(self, x, st, fr):
        loc = self.locals_of(x['b'])
        if not loc:
            return self.seq(x['b'], st, fr)
        self.exc.append([])
        outs = self.seq(x['b'], st, fr)
        thrown = self.exc.pop()

        def unwind(s):
            for d, q, v in reversed(loc):
                l = fr.bind.get(d)
                if l is not None and ('live', l) in s.facts:
                    del s.facts[('live', l)]
                    s.emit('dtor', l, q, x.get('el'))
                    self.dtor_model(s, l, q)
        for o in outs:
            unwind(o.st)
        for s, v in thrown:
            unwind(s)
            self.exc[-1].append((s, v))
        return outs

    def dtor_model(self, s, l, q):
        h = self.hooks.get('dtor')
        if h:
            h(self, s, l, q)

    def s_exp(self, x, st, fr):
        return [Out('norm', s) for s, v in self.ev_discard(x['e'], st, fr)]

    def ev_discard(self, e, st, fr):
        if e is None:
            return [(st, None)]
        if e['k'] in ('call', 'asg', 'un') and (e.get('lv') or e.get('xv')):
            return self.lv(e, st, fr)
        return self.ev(e, st, fr)

    def s_py(self, x, st, fr):
        """a statement of the analysis's own: the outcomes of a call"""
        return x['do'](st, fr)

    def s_null(self, x, st, fr):
        return [Out('norm', st)]

    def s_decl(self, x, st, fr):
        cur = [st]
        for v in x['v']:
            cur = [s2 for s in cur for s2 in self.declare(v, s, fr)]
        return [Out('norm', s) for s in cur]

    def dyntype(self, loc):
        """dynamic class of a local or heap object, when known"""
        if loc[0] == 'heap':
            return loc[3]
        return self.ltypes.get(loc)

    def declare(self, v, st, fr):
        t = self.P.ty(v['t'])
        if t['k'] == 'rec':
            self.ltypes[('lv', fr.id, v['d'])] = t.get('q')
        if v.get('static'):
            fr.bind[v['d']] = ('gv', v['d'])
            return [st]
        if t['k'] in ('ref', 'rref'):
            if v.get('e') is None:
                fr.bind[v['d']] = self.fresh('ref')
                return [st]
            out = []
            for s, l in self.lv(v['e'], st, fr):
                # references are bound through the store so that joins of paths stay apart
                rl = ('lv', fr.id, v['d'])
                fr.bind[v['d']] = ('&', rl)
                write(s, rl, ('addr', l))
                out.append(s)
            return out
        l = ('lv', fr.id, v['d'])
        fr.bind[v['d']] = l
        if t['k'] == 'rec':
            st.facts[('live', l)] = True
        if v.get('e') is None:
            drop_below(st, l)
            write(st, l, self.fresh('uninit'))
            return [st]
        return self.init_into(v['e'], st, fr, l)

    def varloc(self, st, fr, d, node):
        b = fr.bind.get(d)
        if b is None:
            if node.get('dk') in ('glob', 'slocal'):
                return ('gv', d)
            return ('free', d)
        if b[0] == '&':
            v = st.store.get(b[1])
            if v is None:
                return ('free', d)
            return at(v)
        return b

    def init_into(self, e, st, fr, loc):
        """initialise location from expression; returns states"""
        if e is None:
            return [st]
        e = self.unwrap_same(e)
        if e['k'] == 'ctor':
            return [s for s in self.construct(e, st, fr, loc)]
        out = []
        for s, v in self.ev(e, st, fr):
            write(s, loc, v)
            out.append(s)
        return out

    def unwrap_same(self, e):
        while e['k'] == 'cast' and e.get('kk') in ('ConstructorConversion', 'NoOp') and e['e'] is not None \
                and not e.get('lv') and not e.get('xv') and e['e']['k'] in ('ctor', 'init', 'cast'):
            e = e['e']
        return e

    def s_if(self, x, st, fr):
        cur = [st]
        if x.get('i'):
            cur = [o.st for s in cur for o in self.stmt(x['i'], s, fr) if o.kind == 'norm']
        outs = []
        for s in cur:
            if x.get('v'):
                ss = self.declare(x['v'], s, fr)
            else:
                ss = [s]
            for s1 in ss:
                T, F = self.cond(x['c'], s1, fr)
                for s2 in T:
                    outs += self.stmt(x['T'], s2, fr)
                for s2 in F:
                    outs += self.stmt(x['F'], s2, fr)
        return self.cap(outs)

    def s_ret(self, x, st, fr):
        if x.get('e') is None:
            return [Out('ret', st, None)]
        rk = self.P.ty(fr.fn['ret'])['k']
        if rk in ('ref', 'rref'):
            return [Out('ret', s, ('L', l)) for s, l in self.lv(x['e'], st, fr)]
        e = self.unwrap_same(x['e'])
        if rk == 'bool':
            T, F = self.cond(e, st, fr)
            return [Out('ret', s, ('V', TRUE)) for s in T] + [Out('ret', s, ('V', FALSE)) for s in F]
        return [Out('ret', s, ('V', v)) for s, v in self.ev(e, st, fr)]

    def s_brk(self, x, st, fr):
        return [Out('brk', st)]

    def s_cnt(self, x, st, fr):
        return [Out('cnt', st)]

    def s_case(self, x, st, fr):
        return self.stmt(x['b'], st, fr)

    def s_default(self, x, st, fr):
        return self.stmt(x['b'], st, fr)

    def s_label(self, x, st, fr):
        self.notes.add('label')
        return self.stmt(x['b'], st, fr)

    def s_goto(self, x, st, fr):
        self.notes.add('goto')
        return [Out('norm', st)]

    def s_switch(self, x, st, fr):
        cur = [st]
        if x.get('i'):
            cur = [o.st for s in cur for o in self.stmt(x['i'], s, fr) if o.kind == 'norm']
        body = x['b']
        stmts = body['b'] if body and body['s'] == 'blk' else [body]
        # flatten nested labels: [(labels, stmt)]
        flat = []
        for b in stmts:
            labels = []
            while b is not None and b['s'] in ('case', 'default'):
                labels.append(b)
                b = b['b']
            flat.append((labels, b))
        outs = []
        plain = [b for (_, b) in flat]
        for s in cur:
            for s1, v in self.ev(x['c'], s, fr):
                rest = s1
                default_at = None
                for i, (labels, b) in enumerate(flat):
                    for lab in labels:
                        if lab['s'] == 'default':
                            default_at = i
                            continue
                        if rest is None:
                            continue
                        cvs = lab['c'].get('cv')
                        if lab.get('hi') is not None:
                            lo, hi = cvs, lab['hi'].get('cv')
                            t = assume(rest.copy(), mk_not(mk_lt(v, C(lo))), True)
                            t = t and assume(t, mk_not(mk_lt(C(hi), v)), True)
                            if t is not None:
                                outs += self.seq(plain, t, fr, i)
                            f = rest.copy()
                            self.notes.add('case range')
                            rest = f
                            continue
                        a = mk_eq(v, C(cvs))
                        t = assume(rest.copy(), a, True)
                        if t is not None:
                            outs += self.seq(plain, t, fr, i)
                        rest = assume(rest, a, False)
                if rest is not None:
                    if default_at is not None:
                        outs += self.seq(plain, rest, fr, default_at)
                    else:
                        outs.append(Out('norm', rest))
        res = []
        for o in outs:
            if o.kind == 'brk':
                res.append(Out('norm', o.st))
            else:
                res.append(o)
        return self.cap(res)

    def s_try(self, x, st, fr):
        self.exc.append([])
        outs = self.stmt(x['b'], st, fr)
        thrown = self.exc.pop()
        for s, v in thrown:
            handled = False
            for h in x['h']:
                m = self.matches(v, h)
                if m is False:
                    continue
                s2 = s.copy() if m is None else s
                if h.get('v'):
                    l = ('lv', fr.id, h['v']['d'])
                    fr.bind[h['v']['d']] = l
                    write(s2, l, v)
                s2.emit('catch', v, h.get('t') and self.P.ty(h['t'])['s'], h['b'].get('l'))
                outs += self.stmt(h['b'], s2, fr)
                if m:
                    handled = True
                    break
            if not handled:
                self.exc[-1].append((s, v))
        return outs

    def matches(self, v, h):
        if 't' not in h:
            return True
        ht = self.P.ty(h['t'])
        while ht['k'] in ('ref', 'rref'):
            ht = self.P.ty(ht['p'])
        hq = ht.get('q') or ht['s'].replace('const ', '')
        if v[0] == 'exc':
            q = v[1]
            if q == '?':
                return True if hq in ('std::exception',) else None
            return self.derives(q, hq)
        return None

    STD_EXC = {'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
               'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
               'std::bad_alloc': 'std::exception', 'std::length_error': 'std::logic_error',
               'std::domain_error': 'std::logic_error', 'std::bad_cast': 'std::exception'}

    def derives(self, q, b):
        if q == b:
            return True
        if q in self.STD_EXC:
            return self.derives(self.STD_EXC[q], b)
        r = self.P.recs.get(q)
        if r:
            return any(self.derives(x['q'], b) for x in r['bases'])
        return False

    # ---- loops ----------------------------------------------------------------
    def s_while(self, x, st, fr):
        return self.loop(x, st, fr, x['c'], None, x['b'], var=x.get('v'))

    def s_do(self, x, st, fr):
        return self.loop(x, st, fr, x['c'], None, x['b'], post=True)

    def s_for(self, x, st, fr):
        outs = []
        for o in self.stmt(x['i'], st, fr):
            if o.kind == 'norm':
                outs += self.loop(x, o.st, fr, x['c'], x['n'], x['b'], var=x.get('v'))
            else:
                outs.append(o)
        return outs

    def s_rfor(self, x, st, fr):
        outs = []
        t = self.P.ty(x['r']['t']) if x.get('r') else {}
        while t.get('k') in ('ref', 'rref'):
            t = self.P.ty(t['p'])
        for s, l in self.lv(x['r'], st, fr):
            b = self.own_range(t.get('q'), s, fr, l)
            if b is not None:
                for s2, lo, hi in b:
                    outs += self.rangeloop(x, s2, fr, lo[1], lo[2], hi[2])
            else:
                outs += self.rangeloop(x, s, fr, l)
        return outs

    def own_range(self, q, st, fr, l):
        """what begin() and end() of one of the program's own classes delimit"""
        if q not in self.P.recs:
            return None
        ms = {}
        for f in self.P.by_class(q):
            if f['n'] in ('begin', 'end') and not f['ps'] and f.get('body') is not None:
                ms.setdefault(f['n'], f)
        if len(ms) != 2 or not self.may_inline(ms['begin'], fr):
            return None
        out = []
        for s, b in self.invoke(ms['begin'], st.copy(), fr, l, []):
            for s2, e in self.invoke(ms['end'], s, fr, l, []):
                lo, hi = self.val(s2, b), self.val(s2, e)
                if lo[0] != 'it' or hi[0] != 'it' or lo[1] != hi[1]:
                    return None
                out.append((s2, lo, hi))
        return out

    def rangeloop(self, x, st, fr, cont, lo=None, hi=None):
        self.nu += 1
        ix = ('ix', self.nu)
        n = size_of(read(st, cont))
        lo, hi = lo or C(0), hi or n
        v = x['v']

        def header(s):
            pos = ix if lo == C(0) else self.sum(lo, ix)
            t = assume(s.copy(), mk_lt(pos, hi), True)
            f = s.copy()
            el = ('elem', cont, pos)
            T = []
            if t is not None:
                if self.P.ty(v['t'])['k'] in ('ref', 'rref'):
                    fr.bind[v['d']] = el
                    T = [t]
                else:
                    l = ('lv', fr.id, v['d'])
                    fr.bind[v['d']] = l
                    if v.get('e') is not None and v['e']['k'] == 'ctor':
                        write(t, l, read(t, el))
                    else:
                        write(t, l, read(t, el))
                    T = [t]
            return T, [f]
        return self.loop_core(x, st, fr, header, lambda s: [s], x['b'],
                              ('range', cont, lo, hi), ix)

    def loop(self, x, st, fr, c, inc, body, var=None, post=False):
        def header(s):
            if var is not None:
                ss = self.declare(var, s, fr)
            else:
                ss = [s]
            T, F = [], []
            for s1 in ss:
                if c is None:
                    T.append(s1)
                else:
                    a, b = self.cond(c, s1, fr)
                    T += a
                    F += b
            return T, F

        def incf(s):
            if inc is None:
                return [s]
            return [s2 for s2, _ in self.ev_discard(inc, s, fr)]
        return self.loop_core(x, st, fr, header, incf, body, None, None, post=post)

    def loop_core(self, x, st, fr, header, incf, body, rng, ix, post=False):
        if ix is None:
            self.nu += 1
            ix = ('ix', self.nu)
        # pass 1: what does an iteration change?
        nu, nfr, notes = self.nu, self.nfr, set(self.notes)
        base = st.copy()
        changed = {}
        header_in = base
        for rnd in range(4):
            probe = header_in.copy()
            self.exc.append([])
            saved_hooks = (self.on_deref, self.on_elem, self.on_pos)
            self.on_deref = self.on_elem = self.on_pos = None
            if post:
                ends = [o.st for o in self.stmt(body, probe, fr) if o.kind in ('norm', 'cnt')]
                ends2 = []
                for s in ends:
                    ends2 += header(s)[0]
                ends = ends2
            else:
                T, F = header(probe)
                ends = []
                for s in T:
                    ends += [o.st for o in self.stmt(body, s, fr) if o.kind in ('norm', 'cnt')]
                ends = [s2 for s in ends for s2 in incf(s)]
            self.exc.pop()
            self.on_deref, self.on_elem, self.on_pos = saved_hooks
            new = False
            for s in ends:
                for l in set(s.store) | set(header_in.store):
                    if l[0] in ('tmp', 'lv') and l not in header_in.store:
                        continue
                    if (l[0] in SUB) and self.root(l)[0] in ('lv', 'tmp') and self.root(l) not in header_in.store \
                            and not any(self.root(z) == self.root(l) for z in header_in.store):
                        continue
                    # a record changes only where its own parts do
                    if _read(header_in, l) != _read(s, l):
                        changed.setdefault(l, set()).add(read(s, l))
            hv = st.copy()
            ind = {}
            for l in sorted(changed, key=repr):
                a = read(header_in, l)
                a0 = read(st, l)
                bs = set()
                for s in ends:
                    bs.add(read(s, l))
                step = self.step_of(a, bs)
                if step and ends:
                    ind[l] = (a0, step)
            # roots only
            tops = [l for l in changed if not any(self.is_below(l, m) for m in changed if m != l)]
            for l in tops:
                if l in ind:
                    a0, step = ind[l]
                    if a0[0] == 'it':
                        write(hv, l, ('it', a0[1], self.ixadd(a0[2], ix, step)))
                    else:
                        write(hv, l, self.ixadd(a0, ix, step))
                else:
                    write(hv, l, ('hv', ix[1], l, self.evolution(read(st, l), changed[l])))
            nxt = hv
            same = all(read(nxt, l) == read(header_in, l) for l in changed)
            header_in = nxt
            if same:
                break
        # facts about forgotten things are attached to old value numbers, so they stay valid
        self.nu = max(self.nu, nu)
        h = header_in.copy()
        h.ev = ()
        lid = ('loop', ix[1], x.get('l'))
        outs, exits, paths, endst = [], [], [], []
        self.exc.append([])
        self.loopstack.append(lid)
        pre_facts = dict(h.facts)
        if post:
            o1 = self.stmt(body, h, fr)
            nb = []
            for o in o1:
                if o.kind in ('norm', 'cnt'):
                    T, F = header(o.st)
                    for s in T:
                        nb.append((s, 'again'))
                    for s in F:
                        paths.append(('last', s.facts, s.ev, None))
                        exits.append((s, 'cond'))
                elif o.kind == 'brk':
                    exits.append((o.st, 'brk'))
                    paths.append(('brk', o.st.facts, o.st.ev, None))
                else:
                    outs.append(o)
                    paths.append((o.kind, o.st.facts, o.st.ev, o.val))
            for s, _ in nb:
                paths.append(('norm', s.facts, s.ev, None))
            condF = []
        else:
            T, condF = header(h)
            if rng is None:
                rng, T = self.counted(T, ind, ix, pre_facts)
            for s in T:
                for o in self.stmt(body, s, fr):
                    if o.kind in ('norm', 'cnt'):
                        for s2 in incf(o.st):
                            paths.append(('norm', s2.facts, s2.ev, None))
                            endst.append((s2.facts, s2))
                    elif o.kind == 'brk':
                        exits.append((o.st, 'brk'))
                        paths.append(('brk', o.st.facts, o.st.ev, None))
                    else:
                        outs.append(o)
                        paths.append((o.kind, o.st.facts, o.st.ev, o.val))
        thrown = self.exc.pop()
        self.loopstack.pop()
        for s, v in thrown:
            paths.append(('throw', s.facts, s.ev, v))
        # delta facts of the paths that go on to another iteration
        deltas = []
        for kind, facts, ev, val in paths:
            if kind == 'norm':
                deltas.append({k: v for k, v in facts.items() if pre_facts.get(k) != v})
        common = {}
        if deltas:
            common = {k: v for k, v in deltas[0].items() if all(d.get(k) == v for d in deltas[1:])}
        indinfo = tuple(sorted(((l, a0, step) for l, (a0, step) in ind.items()), key=repr))
        node = ('loop', {'ix': ix, 'range': rng, 'paths': paths, 'line': x.get('l'), 'ind': indinfo,
                         'changed': sorted(changed, key=repr), 'common': common, 'fn': fr.fn,
                         'exits': [k for _, k in exits], 'post': post, 'pre': st.ev,
                         'prefacts': pre_facts, 'prestore': st.copy(), 'ends': endst})

        def finish(s, how):
            s = s.copy()
            tail = s.ev if how != 'cond' or post else ()
            s.ev = st.ev + (node,) + tail
            if how == 'cond':
                for k, v in common.items():
                    if mentions(k, ix):
                        s.facts[('forall', ix, k)] = v
            return s
        for s in condF:
            # leaving from the header: facts of this header evaluation hold
            outs.append(Out('norm', finish(s, 'cond')))
        for s, how in exits:
            outs.append(Out('norm', finish(s, how)))
        for o in outs:
            if o.kind != 'norm':
                o.st.ev = st.ev + (node,) + o.st.ev
        for s, v in thrown:
            s.ev = st.ev + (node,) + s.ev
            self.exc[-1].append((s, v))
        return self.cap(outs)

    def counted(self, T, ind, ix, pre):
        """the range a hand-written loop walks: a position from lo on, one by one, while it is not (below) hi"""
        for l, (a0, step) in sorted(ind.items(), key=repr):
            if step != 1 or not T:
                continue
            lo = a0[2] if a0[0] == 'it' else a0
            pos = self.ixadd(lo, ix, 1)
            hi = None
            for s in T:
                his = set()
                for a, v in s.facts.items():
                    if pre.get(a) == v:
                        continue
                    if a[0] == 'eq' and v is False and pos in a[1:]:
                        his.add(a[2] if a[1] == pos else a[1])
                    if a[0] == 'lt' and v is True and a[1] == pos:
                        his.add(a[2])
                hi = his if hi is None else hi & his
            for h in sorted(hi or (), key=repr):
                if mentions(h, ix) or h[0] == 'size' and h[1][0] == 'hv' and h[1][1] == ix[1]:
                    continue
                cont = a0[1] if a0[0] == 'it' else h[1] if h[0] == 'size' else None
                if cont is None or h[0] != 'size' and h[0] != 'c':
                    continue
                if h[0] == 'size' and lo != C(0):
                    continue
                T2 = [assume(s, mk_lt(pos, h), True) for s in T]
                return ('range', cont, lo, h), [s for s in T2 if s is not None]
        return None, T

    def evolution(self, a, bs):
        return None

    def root(self, l):
        while l[0] in SUB:
            l = l[1]
        return l

    def is_below(self, l, m):
        while l[0] in SUB:
            l = l[1]
            if l == m:
                return True
        return False

    def step_of(self, a, bs):
        steps = set()
        for b in bs:
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
                x, y = a[2], b[2]
            else:
                x, y = a, b
            if x[0] in ('it', 'rec', 's', 'null') or y[0] in ('it', 'rec', 's', 'null'):
                return None
            x0, kx = lin(x)
            y0, ky = lin(y)
            if x0 != y0:
                return None
            steps.add(ky - kx)
        if len(steps) == 1:
            s = steps.pop()
            if s in (1, -1):
                return s
        return None

    def ixadd(self, a0, ix, step):
        b, k = lin(a0)
        if step == 1:
            t = ix if b is None else ('sum', b, ix)
        else:
            t = ('neg', ix) if b is None else ('sum', b, ('neg', ix))
        return add(t, k)

    # ---- conditions -------------------------------------------------------------
    def cond(self, e, st, fr):
        if e is None:
            return [st], []
        k = e['k']
        if k == 'bin' and e['o'] == '&&':
            T1, F1 = self.cond(e['L'], st, fr)
            T, F = [], list(F1)
            for s in T1:
                a, b = self.cond(e['R'], s, fr)
                T += a
                F += b
            return self.cap(T), self.cap(F)
        if k == 'bin' and e['o'] == '||':
            T1, F1 = self.cond(e['L'], st, fr)
            T, F = list(T1), []
            for s in F1:
                a, b = self.cond(e['R'], s, fr)
                T += a
                F += b
            return self.cap(T), self.cap(F)
        if k == 'un' and e['o'] == '!':
            T, F = self.cond(e['e'], st, fr)
            return F, T
        if k == 'ic' and e['ck'] in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.cond(e['e'], st, fr)
        if k == 'cond':
            T1, F1 = self.cond(e['c'], st, fr)
            T, F = [], []
            for s in T1:
                a, b = self.cond(e['T'], s, fr)
                T += a
                F += b
            for s in F1:
                a, b = self.cond(e['F'], s, fr)
                T += a
                F += b
            return self.cap(T), self.cap(F)
        T, F = [], []
        for s, v in self.ev(e, st, fr):
            a, b = self.test(s, v)
            if a is not None:
                T.append(a)
            if b is not None:
                F.append(b)
        return self.cap(T), self.cap(F)

    def test(self, st, v):
        d = decide(st, v)
        if d is True:
            return st, None
        if d is False:
            return None, st
        return assume(st.copy(), v, True), assume(st, v, False)

    # ---- expressions --------------------------------------------------------------
    def gl(self, e):
        return e.get('lv') or e.get('xv')

    def ev(self, e, st, fr):
        self.tick()
        if e is None:
            return [(st, ('void',))]
        k = e['k']
        if 'cv' in e and k not in SIDE and not (k in ('un',) and e['o'] in ('++', '--', 'p++', 'p--')):
            if not isinstance(e['cv'], float):
                return [(st, C(e['cv']))]
            return [(st, C(int(e.get('cvs', e['cv']))))]
        h = getattr(self, 'e_' + k, None)
        if h is not None:
            return h(e, st, fr)
        if self.gl(e):
            return [(s, read(s, l)) for s, l in self.lv(e, st, fr)]
        self.notes.add('expression kind %s not modelled' % (k if k != 'other' else e.get('cls')))
        return [(st, self.fresh())]

    def e_int(self, e, st, fr):
        return [(st, C(e.get('cv', 0)))]

    def e_flt(self, e, st, fr):
        return [(st, self.fresh('flt'))]

    def e_str(self, e, st, fr):
        return [(st, ('s', e['v']))]

    def e_null(self, e, st, fr):
        return [(st, NULL)]

    def e_zero(self, e, st, fr):
        t = self.P.ty(e['t'])
        return [(st, NULL if t['k'] == 'ptr' else C(0))]

    def e_sizeof(self, e, st, fr):
        return [(st, C(e['cv']) if 'cv' in e else self.fresh())]

    def e_this(self, e, st, fr):
        return [(st, ('addr', fr.this))]

    def e_ref(self, e, st, fr):
        if e.get('dk') == 'fn':
            return [(st, ('fn', e['f'], e['q']))]
        return [(s, read(s, l)) for s, l in self.lv(e, st, fr)]

    def e_mem(self, e, st, fr):
        if self.gl(e):
            return [(s, read(s, l)) for s, l in self.lv(e, st, fr)]
        out = []
        for s, v in self.ev(e['b'], st, fr):
            out.append((s, project(v, ('fld', e['f']))))
        return out

    def e_idx(self, e, st, fr):
        return [(s, read(s, l)) for s, l in self.lv(e, st, fr)]

    def e_ic(self, e, st, fr):
        if self.gl(e):
            return [(s, read(s, l)) for s, l in self.lv(e, st, fr)]
        return self.convert(e, st, fr)

    def convert(self, e, st, fr):
        sub = e['e']
        out = []
        if sub is None:
            return [(st, self.fresh())]
        ck = e.get('ck') if e['k'] == 'ic' else e.get('kk')
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            for s, v in self.ev(sub, st, fr):
                if v[0] in ('eq', 'lt', 'not', 'T'):
                    out.append((s, v))
                elif v[0] == 'c':
                    out.append((s, C(int(v[1] != 0))))
                elif v == NULL:
                    out.append((s, FALSE))
                else:
                    out.append((s, ('T', v)))
            return out
        if ck == 'IntegralCast':
            tt, ft = self.P.ty(e['t']), self.P.ty(sub['t'])
            for s, v in self.ev(sub, st, fr):
                out.append((s, self.intcast(v, ft, tt)))
            return out
        if ck == 'ToVoid':
            return [(s, ('void',)) for s, _ in self.ev_discard(sub, st, fr)]
        return self.ev(sub, st, fr)

    def intcast(self, v, ft, tt):
        fw, tw = ft.get('w'), tt.get('w')
        if v[0] == 'c' and tw:
            n = v[1]
            if tt['k'] == 'bool':
                return C(int(n != 0))
            n &= (1 << tw) - 1
            if not tt.get('us') and n >> (tw - 1):
                n -= 1 << tw
            return C(n)
        if fw and tw:
            if fw == tw == 8 and bool(ft.get('us')) != bool(tt.get('us')) and self.hooks.get('bytes'):
                return ('sgn', 8, bool(tt.get('us')), v)
            if tw < fw:
                return ('trunc', tw, bool(tt.get('us')), v)
            if bool(ft.get('us')) != bool(tt.get('us')) and v[0] not in ('size', 'ix') and (tw == fw or not ft.get('us')):
                return v if self.hooks.get('ignore_sign', True) else ('sgn', tw, bool(tt.get('us')), v)
        return v

    def e_cast(self, e, st, fr):
        if self.gl(e):
            if self.hooks.get('bytes') and e['e'] is not None:
                tt, ft = self.P.ty(e['t']), self.P.ty(e['e']['t'])
                while tt['k'] in ('ref', 'rref'):
                    tt = self.P.ty(tt['p'])
                if tt.get('w') == 8 == ft.get('w'):
                    return [(s, self.intcast(read(s, l), ft, tt)) for s, l in self.lv(e, st, fr)]
            return [(s, read(s, l)) for s, l in self.lv(e, st, fr)]
        if e.get('ck') == 'dynamic':
            h = self.hooks.get('dyncast')
            out = []
            for s, v in self.ev(e['e'], st, fr):
                r = h and h(self, e, self.P.ty(e['t'])['s'], s, v)
                out += r if r else [(s, ('dyncast', self.P.ty(e['t'])['s'], v))]
            return out
        if e.get('kk') in ('ConstructorConversion',) or e.get('ck') == 'func' and e['e'] and e['e']['k'] == 'ctor':
            return self.ev(e['e'], st, fr)
        if e.get('ck') == 'static' and e.get('kk') == 'BaseToDerived':
            out = []
            for s, v in self.ev(e['e'], st, fr):
                s.emit('downcast', v, self.P.ty(e['t'])['s'], e.get('l'), fr.fn)
                out.append((s, v))
            return out
        return self.convert(e, st, fr)

    def e_cond(self, e, st, fr):
        if self.gl(e):
            return [(s, read(s, l)) for s, l in self.lv(e, st, fr)]
        T, F = self.cond(e['c'], st, fr)
        out = []
        for s in T:
            out += self.ev(e['T'], s, fr)
        for s in F:
            out += self.ev(e['F'], s, fr)
        return self.cap(out)

    def e_lam(self, e, st, fr):
        caps = []
        for c in e['caps']:
            if c.get('this'):
                continue
            if c.get('ref'):
                l = self.varloc(st, fr, c['d'], {})
                if l[0] == 'free' and c.get('e'):
                    for _, l2 in self.lv(c['e'], st, fr)[:1]:
                        l = l2
                caps.append((c['d'], ('L', l)))
            else:
                vs = self.ev(c['e'], st, fr) if c.get('e') else []
                if vs:
                    st, v = vs[0]
                    caps.append((c['d'], ('V', v)))
        return [(st, ('lam', e['f'], tuple(caps), fr.this, tuple(e.get('specs', ()))))]

    def e_init(self, e, st, fr):
        t = self.P.ty(e['t'])
        a = e['a']
        if t['k'] == 'rec':
            rec = self.P.rec_at.get((t.get('q'), fr.fn['file'] if fr.fn else None)) or self.P.recs.get(t.get('q'))
            cur = [(st, ())]
            for i, x in enumerate(a):
                nxt = []
                isref = rec and i < len(rec['fields']) and self.P.ty(rec['fields'][i]['t'])['k'] in ('ref', 'rref')
                for s, vs in cur:
                    if isref and x is not None:
                        for s2, l in self.lv(x, s, fr):
                            nxt.append((s2, vs + (('addr', l),)))
                        continue
                    for s2, v in self.ev(x, s, fr):
                        nxt.append((s2, vs + (v,)))
                cur = nxt
            out = []
            for s, vs in cur:
                if rec and len(rec['fields']) == len(vs):
                    fs = tuple(sorted([(('fld', f['n']), v) for f, v in zip(rec['fields'], vs)] + self.typed(t.get('q')), key=repr))
                    out.append((s, ('rec', ('lit',), fs)))
                elif t.get('tn') == 'std::array' and len(vs) == 1:
                    out.append((s, vs[0]))
                else:
                    out.append((s, ('agg', t['s']) + vs))
            return out
        if t['k'] == 'arr' or len(a) > 1:
            cur = [(st, ())]
            for x in a:
                cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in self.ev(x, s, fr)]
            return [(s, ('arr', vs)) for s, vs in cur]
        if len(a) == 1:
            return self.ev(a[0], st, fr)
        return [(st, NULL if t['k'] == 'ptr' else C(0))]

    def e_throw(self, e, st, fr):
        if e.get('e') is None:
            st.emit('rethrow', e.get('l'))
            self.exc[-1].append((st, ('exc', '?')))
            return []
        q = self.P.ty(e['e']['t'])
        q = q.get('q') or q['s'].replace('const ', '')
        for s, v in self.ev(e['e'], st, fr):
            s.emit('throw', q, e.get('l'), fr.fn)
            self.exc[-1].append((s, ('exc', q, v)))
        return []

    def e_new(self, e, st, fr):
        self.nu += 1
        l = ('heap', e.get('l'), self.nu, self.P.ty(e['at'])['s'])
        p = ('new', l)
        out = []
        cur = [(st, None)]
        if e.get('n') is not None:
            cur = self.ev(e['n'], st, fr)
        for s, n in cur:
            s.emit('new', p, self.P.ty(e['at'])['s'], n, e.get('l'), fr.fn)
            if e.get('e') is not None and not e.get('arr'):
                for s2 in self.init_into(e['e'], s, fr, at(p)):
                    out.append((s2, p))
            else:
                out.append((s, p))
        return out

    def e_del(self, e, st, fr):
        out = []
        for s, v in self.ev(e['e'], st, fr):
            s.emit('delete', v, bool(e.get('arr')), e.get('l'), fr.fn)
            out.append((s, ('void',)))
        return out

    def e_stmt(self, e, st, fr):
        return [(o.st, ('void',)) for o in self.stmt(e['b'], st, fr) if o.kind == 'norm']

    def e_un(self, e, st, fr):
        o = e['o']
        if o == '*':
            return [(s, read(s, l)) for s, l in self.lv(e, st, fr)]
        if o == '&':
            if e['e']['k'] == 'ref' and e['e'].get('dk') == 'fn':
                return self.ev(e['e'], st, fr)
            out = []
            for s, l in self.lv(e['e'], st, fr):
                if l[0] == 'at':
                    out.append((s, l[1]))
                elif l[0] == 'elem':
                    out.append((s, ('it', l[1], l[2])))
                else:
                    out.append((s, ('addr', l)))
            return out
        if o == '!':
            T, F = self.cond(e, st, fr)
            return [(s, TRUE) for s in T] + [(s, FALSE) for s in F]
        if o in ('++', '--', 'p++', 'p--'):
            out = []
            for s, l in self.lv(e['e'], st, fr):
                old = read(s, l)
                new = self.shift(old, 1 if '+' in o else -1)
                write(s, l, new)
                s.emit('store', l, new, e.get('l'))
                out.append((s, old if o[0] == 'p' else new))
            return out
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if v[0] == 'c':
                if o == '-':
                    out.append((s, C(-v[1])))
                    continue
                if o == '~':
                    out.append((s, self.wrap(C(~v[1]), e)))
                    continue
            if o == '+':
                out.append((s, v))
            else:
                out.append((s, ('u' + o, v)))
        return out

    def shift(self, v, k):
        if v[0] == 'it':
            return ('it', v[1], add(v[2], k))
        return add(v, k)

    def wrap(self, v, e):
        t = self.P.ty(e['t'])
        return self.intcast(v, {}, t) if t.get('w') else v

    def e_bin(self, e, st, fr):
        o = e['o']
        if o in ('&&', '||'):
            T, F = self.cond(e, st, fr)
            return [(s, TRUE) for s in T] + [(s, FALSE) for s in F]
        if o == ',':
            out = []
            for s, _ in self.ev_discard(e['L'], st, fr):
                out += self.ev(e['R'], s, fr)
            return out
        out = []
        for s, a in self.ev(e['L'], st, fr):
            for s2, b in self.ev(e['R'], s, fr):
                out.append((s2, self.binop(o, a, b, e)))
        return out

    def binop(self, o, a, b, e=None):
        if o == '==':
            return mk_eq(a, b)
        if o == '!=':
            return mk_not(mk_eq(a, b))
        if o == '<':
            return mk_lt(a, b)
        if o == '>':
            return mk_lt(b, a)
        if o == '<=':
            return mk_not(mk_lt(b, a))
        if o == '>=':
            return mk_not(mk_lt(a, b))
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                     '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y if y < 64 else 0, '>>': lambda: x >> y,
                     '/': lambda: int(x / y), '%': lambda: x - y * int(x / y)}[o]()
                return self.wrap(C(r), e) if e else C(r)
            except (KeyError, ZeroDivisionError, ValueError):
                pass
        if o == '+':
            if a[0] == 'it' and b[0] == 'c':
                return self.shift(a, b[1])
            if b[0] == 'c' and a[0] != 's':
                if e and self.P.ty(e['t'])['k'] == 'ptr':
                    return ('it', at(a), b) if b[1] or a[0] == 'addr' else a
                return add(a, b[1])
            if a[0] == 'c' and b[0] not in ('s', 'it'):
                return add(b, a[1])
            if a[0] == 'it':
                return ('it', a[1], self.sum(a[2], b))
            if e and self.P.ty(e['t'])['k'] == 'ptr':
                return ('it', at(a), b)
            return self.sum(a, b)
        if o == '-':
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
                return self.diff(a[2], b[2])
            if b[0] == 'c':
                return self.shift(a, -b[1])
            if a[0] == 'it' and b[0] != 'it':
                return ('it', a[1], self.diff(a[2], b))
            return self.diff(a, b)
        return ('op', o, a, b)

    def sum(self, a, b):
        a0, ka = lin(a)
        b0, kb = lin(b)
        if a0 is None:
            return add(b, ka)
        if b0 is None:
            return add(a, kb)
        if repr(a0) > repr(b0):
            a0, b0 = b0, a0
        return add(('sum', a0, b0), ka + kb)

    def diff(self, a, b):
        a0, ka = lin(a)
        b0, kb = lin(b)
        if a0 == b0:
            return C(ka - kb)
        if b0 is None:
            return add(a, -kb)
        if a0 is not None and a0[0] == 'sum':
            if a0[1] == b0:
                return add(a0[2], ka - kb)
            if a0[2] == b0:
                return add(a0[1], ka - kb)
        return ('op', '-', a, b)

    def e_asg(self, e, st, fr):
        if not self.gl(e):
            return [(s, read(s, l)) for s, l in self.assign(e, st, fr)]
        return [(s, read(s, l)) for s, l in self.assign(e, st, fr)]

    def assign(self, e, st, fr):
        out = []
        o = e['o']
        if o == '=':
            for s, v in self.ev(e['R'], st, fr):
                for s2, l in self.lv(e['L'], s, fr):
                    write(s2, l, v)
                    s2.emit('store', l, v, e.get('l'))
                    out.append((s2, l))
            return out
        for s, v in self.ev(e['R'], st, fr):
            for s2, l in self.lv(e['L'], s, fr):
                w = self.binop(o[:-1], read(s2, l), v, e)
                write(s2, l, w)
                s2.emit('store', l, w, e.get('l'))
                out.append((s2, l))
        return out

    def e_typeid(self, e, st, fr):
        return [(st, self.fresh())]

    # ---- glvalues -------------------------------------------------------------------
    def deref(self, st, v, node, fr):
        if self.on_deref:
            self.on_deref(st, v, node, fr)
        return at(v)

    def lv(self, e, st, fr):
        self.tick()
        k = e['k']
        if not self.gl(e) and k not in ('call', 'ctor'):
            if k == 'mem' and not e.get('ar') and not self.gl(e['b']):
                pass
            out = []
            for s, v in self.ev(e, st, fr):
                l = self.fresh('tmp')
                write(s, l, v)
                out.append((s, l))
            return out
        if k == 'ref':
            if e.get('dk') == 'fn':
                return [(st, ('fnloc', e['f'], e['q']))]
            return [(st, self.varloc(st, fr, e['d'], e))]
        if k == 'mem':
            out = []
            if e.get('ar'):
                bs = [(s, self.deref(s, v, e, fr)) for s, v in self.ev(e['b'], st, fr)]
            else:
                bs = self.lv(e['b'], st, fr)
            for s, b in bs:
                l = ('fld', b, e['f'])
                if self.on_mem:
                    self.on_mem(s, l, e, fr)
                if self.field_is_ref(e['fq']):
                    l = at(read(s, l))
                out.append((s, l))
            return out
        if k == 'un' and e['o'] == '*':
            return [(s, self.deref(s, v, e, fr)) for s, v in self.ev(e['e'], st, fr)]
        if k == 'un':
            out = []
            for s, l in self.lv(e['e'], st, fr):
                new = self.shift(read(s, l), 1 if '+' in e['o'] else -1)
                write(s, l, new)
                s.emit('store', l, new, e.get('l'))
                out.append((s, l))
            return out
        if k == 'idx':
            out = []
            for s, b in self.ev_base(e['b'], st, fr):
                for s2, i in self.ev(e['i'], s, fr):
                    if b[0] == 'it':
                        base, ix = b[1], self.binop('+', b[2], i)
                    else:
                        base, ix = at(b), i
                    if self.on_deref and b[0] != 'addr':
                        self.on_deref(s2, b, e, fr)
                    if self.on_elem:
                        self.on_elem(s2, base, ix, e, fr)
                    out.append((s2, ('elem', base, ix)))
            return out
        if k == 'asg':
            return self.assign(e, st, fr)
        if k == 'cond':
            T, F = self.cond(e['c'], st, fr)
            out = []
            for s in T:
                out += self.lv(e['T'], s, fr)
            for s in F:
                out += self.lv(e['F'], s, fr)
            return out
        if k == 'ic':
            return self.lv(e['e'], st, fr)
        if k == 'cast':
            if e.get('kk') == 'BaseToDerived':
                out = []
                for s, l in self.lv(e['e'], st, fr):
                    s.emit('downcast', ('addr', l), self.P.ty(e['t'])['s'], e.get('l'), fr.fn)
                    out.append((s, l))
                return out
            if e['ck'] == 'dynamic':
                return [(s, ('at', ('dyncast', self.P.ty(e['t'])['s'], ('addr', l)))) for s, l in self.lv(e['e'], st, fr)]
            return self.lv(e['e'], st, fr)
        if k == 'bin' and e['o'] == ',':
            out = []
            for s, _ in self.ev_discard(e['L'], st, fr):
                out += self.lv(e['R'], s, fr)
            return out
        if k == 'str':
            return [(st, ('strlit', e['v']))]
        if k == 'call':
            out = []
            for s, r in self.call(e, st, fr):
                out.append((s, self.as_loc(s, r)))
            return out
        if k == 'ctor':
            out = []
            l = self.fresh('tmp')
            for s in self.construct(e, st, fr, l):
                out.append((s, l))
            return out
        if k == 'throw':
            self.ev(e, st, fr)
            return []
        if k == 'init' and e['a']:
            return self.lv(e['a'][0], st, fr)
        self.notes.add('glvalue kind %s not modelled' % (k if k != 'other' else e.get('cls')))
        return [(st, self.fresh('loc'))]

    def ev_base(self, e, st, fr):
        """pointer or array used as the base of a subscript"""
        t = self.P.ty(e['t'])
        if t['k'] == 'arr' and self.gl(e):
            return [(s, ('addr', l)) for s, l in self.lv(e, st, fr)]
        return self.ev(e, st, fr)

    def as_loc(self, s, r):
        if r[0] == 'L':
            return r[1]
        v = r[1]
        l = self.fresh('tmp')
        write(s, l, v)
        return l

    # ---- construction ------------------------------------------------------------------
    def e_ctor(self, e, st, fr):
        l = self.fresh('tmp')
        return [(s, read(s, l)) for s in self.construct(e, st, fr, l)]

    def construct(self, e, st, fr, loc):
        import models
        a = e['a']
        if e.get('el') and len(a) == 1:
            return self.init_into(a[0], st, fr, loc)
        outs = []
        hk = self.hooks.get('ctor')
        for s, args in self.args(e, st, fr):
            r = hk(self, e, s, fr, loc, args) if hk else None
            if r is None:
                r = models.ctor(self, e, s, fr, loc, args)
            if r is not None:
                outs += r
                continue
            fn = self.P.fns.get(e['f'])
            if fn is not None and fn.get('body') is not None and not fn.get('dft') and self.may_inline(fn, fr):
                nf = self.frame(fn, loc, fr)
                self.bindargs(fn, nf, s, args)
                drop_below(s, loc)
                s.store.pop(loc, None)
                write(s, loc, ('fresh', loc))
                for x, v in self.typed(fn.get('cls')):
                    write(s, ('fld', loc, x[1]), v)
                for o in self.body(fn, s, nf):
                    outs.append(o.st)
                continue
            if e['ck'] in ('copy', 'move') and len(args) == 1 and args[0][0] == 'L':
                v = read(s, args[0][1])
                write(s, loc, v)
                if e['ck'] == 'move':
                    s.emit('moved', args[0][1], e.get('l'))
                    if self.owning(e['t']):
                        write(s, args[0][1], MOVED)
                s.emit('copyctor' if e['ck'] == 'copy' else 'movector', loc, args[0][1], strip_targs(e['q']), e.get('l'))
                outs.append(s)
                continue
            vals = tuple(self.val(s, x) for x in args)
            q = strip_targs(e['q'])
            if fn is not None and fn.get('dft') and e['ck'] == 'default':
                outs += self.default_init(fn, s, loc, fr)
                continue
            v = ('ctor', q) + vals if vals or q.startswith('refract') else ('ctor', q)
            write(s, loc, v)
            s.emit('call', e['q'], ('addr', loc), vals, v, e.get('l'), fr.fn, tuple(args))
            if e.get('nx') is None and self.fork_throw and self.fork_throw(self, e, s, fr):
                s2 = s.copy()
                self.exc[-1].append((s2, ('exc', '?')))
            outs.append(s)
        return outs

    def typed(self, q):
        """the class of an object as a part of it, for the classes a rule tells apart"""
        f = self.hooks.get('typed')
        return [(('fld', '#type'), ('s', q))] if f and q and f(q) else []

    def default_init(self, fn, s, loc, fr):
        """defaulted default constructor: member initialisers"""
        nf = self.frame(fn, loc, fr)
        write(s, loc, ('fresh', loc))
        for x, v in self.typed(fn.get('cls')):
            write(s, ('fld', loc, x[1]), v)
        if 'inits' in fn:
            return [o.st for o in self.body(fn, s, nf)]
        rec = self.P.rec_at.get((fn.get('cls'), fn['file'])) or self.P.recs.get(fn.get('cls'))
        cur = [s]
        if rec:
            for f in rec['fields']:
                if f.get('e') is not None:
                    cur = [s3 for s2 in cur for s3 in self.init_into(f['e'], s2, nf, ('fld', loc, f['n']))]
        return cur

    def owning(self, tid):
        return True

    def may_inline(self, fn, fr):
        if fr.depth >= self.max_depth:
            self.notes.add('inlining bound reached at %s' % fn['b'])
            return False
        if fn['f'] in fr.stack:
            return False
        if fn['b'] in self.noinline or fn['f'] in self.noinline:
            return False
        if self.inline_pred is not None and not self.inline_pred(fn):
            return False
        return True

    def bindargs(self, fn, nf, s, args):
        for i, p in enumerate(fn['ps']):
            t = self.P.ty(p['t'])
            a = args[i] if i < len(args) else ('V', self.fresh())
            if t['k'] in ('ref', 'rref'):
                rl = ('lv', nf.id, p['d'])
                l = self.as_loc(s, a)
                nf.bind[p['d']] = l
            else:
                l = ('lv', nf.id, p['d'])
                nf.bind[p['d']] = l
                write(s, l, self.val(s, a))

    def val(self, s, a):
        return read(s, a[1]) if a[0] == 'L' else a[1]

    def args(self, e, st, fr):
        """evaluate the arguments of a call: [(state, [('L',loc)|('V',val)])]"""
        pk = e.get('pk', '')
        cur = [(st, [])]
        for i, x in enumerate(e['a']):
            kind = pk[i] if i < len(pk) else 'v'
            nxt = []
            for s, vs in cur:
                if x is None:
                    nxt.append((s, vs + [('V', self.fresh())]))
                    continue
                if self.gl(x) and (kind in 'rcx'):
                    for s2, l in self.lv(x, s, fr):
                        nxt.append((s2, vs + [('L', l)]))
                elif not self.gl(x) and kind in 'rcx' and x['k'] == 'ctor':
                    l = self.fresh('tmp')
                    for s2 in self.construct(x, s, fr, l):
                        nxt.append((s2, vs + [('L', l)]))
                else:
                    for s2, v in self.ev(x, s, fr):
                        nxt.append((s2, vs + [('V', v)]))
            cur = self.cap(nxt)
        return cur

    # ---- calls --------------------------------------------------------------------------
    def e_call(self, e, st, fr):
        return [(s, self.val(s, r)) for s, r in self.call(e, st, fr)]

    def call(self, e, st, fr):
        import models
        outs = []
        bases = [(st, None)]
        if e.get('ob') is not None:
            bases = []
            if e.get('ar'):
                for s, v in self.ev(e['ob'], st, fr):
                    bases.append((s, self.deref(s, v, e, fr)))
            else:
                bases = self.lv(e['ob'], st, fr)
        for s, ob in bases:
            for s2, args in self.args(e, s, fr):
                outs += self.dispatch(e, s2, fr, ob, args)
        return self.cap(outs)

    def dispatch(self, e, s, fr, ob, args):
        import models
        b = strip_targs(e['q']) if 'q' in e else None
        h = self.hooks.get('call')
        if h:
            r = h(self, e, b, s, fr, ob, args)
            if r is not None:
                return r
        if b is not None:
            r = models.call(self, e, b, s, fr, ob, args)
            if r is not None:
                return r
            fn = self.P.fns.get(e['f'])
            if e.get('vt') and ob is not None and self.dyntype(ob) and (fn is None or 'body' not in fn):
                tgt = self.find_override(e['f'], self.dyntype(ob))
                if tgt is not None and self.may_inline(tgt, fr):
                    return self.invoke(tgt, s, fr, ob, args)
            if fn is not None and 'op' in fn and b.endswith('operator=') and fn.get('dft') and len(args) == 1 and args[0][0] == 'L':
                v = read(s, args[0][1])
                write(s, ob, v)
                s.emit('assign', ob, args[0][1], fn.get('ck'), e.get('l'))
                if fn.get('ck') == 'move=':
                    write(s, args[0][1], MOVED)
                return [(s, ('L', ob))]
            if fn is not None and fn.get('body') is not None:
                virt = e.get('vt') and self.P.overriders.get(e['f'])
                if virt and ob is not None and self.dyntype(ob):
                    tgt = self.find_override(fn['f'], self.dyntype(ob))
                    if tgt is not None and self.may_inline(tgt, fr):
                        return self.invoke(tgt, s, fr, ob, args)
                if not virt and self.may_inline(fn, fr):
                    return self.invoke(fn, s, fr, ob, args)
        else:
            # call through a function value
            for s1, fv in self.ev(e['ce'], s, fr):
                return self.apply(fv, s1, fr, args, e)
        return self.opaque(e, s, fr, ob, args)

    def find_override(self, usr, cls):
        for u in self.P.overriders.get(usr, ()):
            f = self.P.fns[u]
            if f.get('cls') == cls and 'body' in f:
                return f
            if 'body' not in f:
                r = self.find_override(u, cls)
                if r is not None:
                    return r
        for u in self.P.overriders.get(usr, ()):
            r = self.find_override(u, cls)
            if r is not None:
                return r
        return None

    def invoke(self, fn, s, fr, ob, args):
        nf = self.frame(fn, ob, fr)
        self.bindargs(fn, nf, s, args)
        res = []
        for o in self.body(fn, s, nf):
            res.append((o.st, o.val if o.val is not None else ('V', ('void',))))
        return self.cap(res)

    def apply(self, fv, s, fr, args, e):
        """call a lambda or function value"""
        if fv[0] == 'lam':
            fn = self.P.fns.get(fv[1])
            if fn is None or 'body' not in fn:
                for u in fv[4]:
                    if u in self.P.fns and 'body' in self.P.fns[u]:
                        fn = self.P.fns[u]
            if fn is not None and fn.get('body') is not None and fr.depth < self.max_depth and fn['f'] not in fr.stack:
                nf = self.frame(fn, fv[3], fr)
                for d, b in fv[2]:
                    if b[0] == 'L':
                        nf.bind[d] = b[1]
                    else:
                        l = ('lv', nf.id, d)
                        write(s, l, b[1])
                        nf.bind[d] = l
                self.bindargs(fn, nf, s, args)
                return [(o.st, o.val if o.val is not None else ('V', ('void',))) for o in self.body(fn, s, nf)]
        if fv[0] == 'fn':
            fn = self.P.fns.get(fv[1])
            if fn is not None and fn.get('body') is not None and self.may_inline(fn, fr):
                return self.invoke(fn, s, fr, None, args)
            vals = tuple(self.val(s, a) for a in args)
            r = ('call', strip_targs(fv[2]), None) + vals
            s.emit('call', fv[2], None, vals, r, e.get('l'), fr.fn, tuple(args))
            return [(s, ('V', r))]
        vals = tuple(self.val(s, a) for a in args)
        r = ('apply', fv) + vals
        s.emit('apply', fv, vals, e.get('l'), fr.fn)
        return [(s, ('V', r))]

    def opaque(self, e, s, fr, ob, args):
        b = strip_targs(e['q'])
        pk = e.get('pk', '')
        vals = tuple(self.val(s, a) for a in args)
        obv = read(s, ob) if ob is not None else None
        impure = False
        if ob is not None and not e.get('cst') and not e.get('stc'):
            impure = True
        for i, a in enumerate(args):
            kd = pk[i] if i < len(pk) else 'v'
            if kd in 'rp' or kd == 'x':
                impure = True
        r = ('call', b, obv) + vals
        if impure:
            self.nu += 1
            r = r + (('#', self.nu),)
        s.emit('call', e['q'], ('addr', ob) if ob is not None else None, vals, r, e.get('l'), fr.fn, tuple(args))
        if ob is not None and not e.get('cst') and not e.get('stc'):
            write(s, ob, ('out', r, 'this'))
        for i, a in enumerate(args):
            kd = pk[i] if i < len(pk) else 'v'
            if kd in 'rx' and a[0] == 'L':
                write(s, a[1], ('out', r, i))
            elif kd == 'p' and a[0] == 'V' and a[1][0] not in ('null', 'fn', 's', 'c'):
                l = at(a[1])
                if l[0] == 'elem':
                    l = l[1]
                write(s, l, ('out', r, i))
        if self.fork_throw and not e.get('nx') and self.fork_throw(self, e, s, fr):
            s2 = s.copy()
            self.exc[-1].append((s2, ('exc', '?')))
        if e.get('lv') or e.get('xv'):
            return [(s, ('L', ('at', r)))]
        return [(s, ('V', r))]


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(mentions(y, x) for y in t)
    return False


def subst(t, x, y):
    if t == x:
        return y
    if isinstance(t, tuple):
        return tuple(subst(z, x, y) if isinstance(z, tuple) else z for z in t)
    return t


def flat_events(ev, inloop=()):
    """every event, those inside loops too: (event, enclosing loop infos)"""
    for e in ev:
        if e[0] == 'loop':
            for p in e[1]['paths']:
                yield from flat_events(p[2], inloop + (e[1],))
        else:
            yield e, inloop


def fmt(t):
    """short readable form of a value number"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'c':
        return str(t[1])
    if k == 's':
        return repr(t[1])
    if k == 'null':
        return 'null'
    if k == 'obj':
        return t[1]
    if k == 'lv':
        return str(t[2]).split('@')[0]
    if k == 'tmp':
        return 'tmp%s' % t[1]
    if k == 'fld':
        return fmt(t[1]) + '.' + t[2]
    if k == 'vf':
        return fmt(t[1]) + '.' + t[2] + '()'
    if k == 'elem':
        return '%s[%s]' % (fmt(t[1]), fmt(t[2]))
    if k == 'at':
        return '*' + fmt(t[1])
    if k == 'addr':
        return '&' + fmt(t[1])
    if k == 'size':
        return 'size(%s)' % fmt(t[1])
    if k == 'ix':
        return 'i%s' % t[1]
    if k == 'it':
        return 'iter(%s,%s)' % (fmt(t[1]), fmt(t[2]))
    if k == 'add':
        return '%s%+d' % (fmt(t[1]), t[2])
    if k == 'eq':
        return '%s == %s' % (fmt(t[1]), fmt(t[2]))
    if k == 'lt':
        return '%s < %s' % (fmt(t[1]), fmt(t[2]))
    if k == 'T':
        return 'bool(%s)' % fmt(t[1])
    if k == 'not':
        return '!(%s)' % fmt(t[1])
    if k == 'op':
        return '(%s %s %s)' % (fmt(t[2]), t[1], fmt(t[3]))
    if k == 'call':
        a = [fmt(x) for x in t[2:] if x is not None]
        return '%s(%s)' % (t[1], ', '.join(a))
    if k == 'rec':
        return '{%s|%s}' % (fmt(t[1]), ', '.join('%s=%s' % (fmt(a[1]) if isinstance(a[1], tuple) else a[1], fmt(b)) for a, b in t[2]))
    if k == 'lam':
        return '<lambda>'
    return '%s(%s)' % (k, ', '.join(fmt(x) for x in t[1:]))

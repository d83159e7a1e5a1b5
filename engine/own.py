"""Who releases what: objects of new, C strings, compiled expressions and handles are followed along the paths of a
function, from where they are acquired to where they are released or handed on."""
from front import strip_targs

LIMIT = 256
STRINGS = {'strdup', 'strndup', 'malloc', 'calloc', 'realloc'}
FREE = {'free', 'std::free'}
GETS = {'sd_markdown_new': 'markdown', 'bufnew': 'buf'}
PUTS = {'sd_markdown_free': 'markdown', 'bufrelease': 'buf'}
OWNERS = {'std::unique_ptr', 'std::shared_ptr', 'std::auto_ptr', 'std::__uniq_ptr_data', 'std::__uniq_ptr_impl'}
NAMES = {'new': 'the object of new', 'new[]': 'the array of new[]', 'malloc': 'the memory of malloc', 'regex': 'the compiled expression', 'markdown': 'the renderer', 'buf': 'the buffer'}
CALLS = {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free', 'regex': 'regfree', 'markdown': 'sd_markdown_free', 'buf': 'bufrelease'}


class St:
    __slots__ = ('res', 'val', 'nz', 'rel', 'ever', 'dead')

    def __init__(self):
        self.res = {}     # site -> [kind, line, 'held'|'released'|'handed on', line]
        self.val = {}     # place -> ('R', site) | ('I', n) | ('T', site: zero means acquired)
        self.nz = {}      # place -> bool
        self.rel = {}     # place released whose value is not known -> (kind, line)
        self.ever = frozenset()   # members released at some time
        self.dead = False

    def copy(self):
        s = St()
        s.res = {k: list(v) for k, v in self.res.items()}
        s.val, s.nz, s.rel = dict(self.val), dict(self.nz), dict(self.rel)
        s.ever = self.ever
        return s

    def key(self):
        return (tuple(sorted((repr(k), tuple(v)) for k, v in self.res.items())),
                tuple(sorted((repr(k), repr(v)) for k, v in self.val.items())),
                tuple(sorted((repr(k), v) for k, v in self.nz.items())),
                tuple(sorted((repr(k), v) for k, v in self.rel.items())),
                self.ever)


def uniq(ss):
    out = {}
    for s in ss:
        out.setdefault(s.key(), s)
    return list(out.values())


def dropped(P):
    """members their class's destructor releases"""
    if not hasattr(P, '_dropped'):
        from front import walk
        P._dropped = set()
        for f in P.fns.values():
            if f.get('ck') == 'dtor' and f.get('body') is not None:
                for x in walk(f['body']):
                    if x.get('k') == 'del' or x.get('k') == 'call' and strip_targs(x.get('q') or '') in FREE | set(PUTS) | {'regfree'}:
                        for y in walk(x):
                            if y.get('k') == 'mem' and y['b'].get('k') == 'this':
                                P._dropped.add((f.get('cls'), y['f']))
    return P._dropped


class Own:
    def __init__(self, P, sums, fn, report=None):
        self.P, self.sum, self.fn, self.report = P, sums, fn, report
        self.gives = set()       # kinds answered
        self.outs = set()        # (parameter, kind) written through the parameter
        self.takes = set()       # (parameter, kind) released
        self.keeps = set()       # parameters handed on
        self.owns = set()        # parameters given to an owner
        self.stores = []         # (member, kind, node, the state allows it)
        self.drops = set()       # (member, kind) released
        self.pars = {p['d']: i for i, p in enumerate(fn['ps'])}
        self.tries = []
        self.over = False
        self.sites = {}
        self.n = {'acquired': 0, 'released': 0, 'exit': 0}
        self.said = set()
        self.exits = []          # places released or known to be null where the function ends

    def say(self, node, key, text):
        if self.report and (key, text) not in self.said:
            self.said.add((key, text))
            self.report(self.fn, node, key, text)

    def run(self):
        s = St()
        for d, i in self.pars.items():
            s.val[('v', d)] = ('P', i)
        ss = [s]
        for i in self.fn.get('inits') or ():
            if i.get('e') is None:
                continue
            nxt = []
            for s in ss:
                for s2, v in self.ex(i['e'], s):
                    if 'f' in i:
                        self.store(s2, ('m', i['f']), v, i['e'])
                    nxt.append(s2)
            ss = self.cap(nxt)
        out = self.stmt(self.fn['body'], ss)
        for s in out['norm']:
            self.leave(s, None)
        return self

    def cap(self, ss):
        ss = uniq([s for s in ss if not s.dead])
        if len(ss) > LIMIT:
            self.over = True
            ss = ss[:LIMIT]
        return ss

    def leave(self, s, node, how='leaves'):
        self.n['exit'] += 1
        self.exits.append((frozenset(s.rel) | s.ever | {p for p, v in s.val.items() if v == ('I', 0)} | {p for p, b in s.nz.items() if not b},
                           frozenset(p for p, b in s.nz.items())))
        for site, r in s.res.items():
            if r[2] == 'held':
                self.say({'l': r[1]}, 'leak|%s' % r[0], '%s acquired here is not released on the path that %s at line %s' % (
                    NAMES[r[0]], how, node.get('l') if node else 'the end'))

    # ---- statements
    def stmt(self, x, ss):
        out = {'norm': [], 'brk': [], 'cnt': []}
        if x is None or not ss:
            out['norm'] = ss
            return out
        k = x['s']
        if k == 'blk':
            for y in x['b']:
                o = self.stmt(y, ss)
                out['brk'] += o['brk']
                out['cnt'] += o['cnt']
                ss = o['norm']
                if not ss:
                    break
            out['norm'] = ss
            return out
        if k == 'exp':
            out['norm'] = self.cap([a for s in ss for a, v in self.top(x['e'], s)])
        elif k == 'decl':
            for v in x['v']:
                ss = self.declare(v, ss)
            out['norm'] = ss
        elif k == 'if':
            if x.get('i'):
                ss = self.stmt(x['i'], ss)['norm']
            if x.get('v'):
                ss = self.declare(x['v'], ss)
            yes, no = self.branch(x['c'], ss)
            a, b = self.stmt(x['T'], yes), self.stmt(x.get('F'), no)
            for j in out:
                out[j] = self.cap(a[j] + b[j])
        elif k in ('for', 'while', 'do'):
            if x.get('i'):
                ss = self.stmt(x['i'], ss)['norm']
            done = []
            for rnd in range(3):
                if x.get('v'):
                    ss = self.declare(x['v'], ss)
                yes = ss
                if (k != 'do' or rnd) and x.get('c') is not None:
                    yes, no = self.branch(x['c'], ss)
                    done += no
                if rnd == 2:
                    break
                o = self.stmt(x['b'], yes)
                done += o['brk']
                ss = self.cap(o['norm'] + o['cnt'])
                if x.get('n') is not None:
                    ss = self.cap([a for s in ss for a, v in self.ex(x['n'], s)])
            out['norm'] = self.cap(done)
        elif k == 'rfor':
            ss = self.cap([a for s in ss for a, v in self.ex(x['r'], s)])
            done = [s.copy() for s in ss]
            for rnd in range(2):
                for s in ss:
                    if x['v'].get('d'):
                        self.forget(s, ('v', x['v']['d']))
                o = self.stmt(x['b'], ss)
                done += o['brk']
                ss = self.cap(o['norm'] + o['cnt'])
                done += [s.copy() for s in ss]
            out['norm'] = self.cap(done)
        elif k == 'switch':
            if x.get('i'):
                ss = self.stmt(x['i'], ss)['norm']
            ss = self.cap([a for s in ss for a, v in self.ex(x['c'], s)])
            body = x['b']['b'] if x['b'] and x['b']['s'] == 'blk' else [x['b']]
            cur, has = [], False
            for y in body:
                z, first = y, True
                while z is not None and z['s'] in ('case', 'default'):
                    has = has or z['s'] == 'default'
                    if first:
                        cur = self.cap(cur + [s.copy() for s in ss])
                    first = False
                    z = z['b']
                o = self.stmt(z, cur)
                cur = o['norm']
                out['brk'] += o['brk']
                out['cnt'] += o['cnt']
            out['norm'] = self.cap(cur + out['brk'] + ([] if has else ss))
            out['brk'] = []
        elif k in ('case', 'default', 'label'):
            return self.stmt(x['b'], ss)
        elif k == 'ret':
            for s in ss:
                for a, v in (self.ex(x['e'], s) if x.get('e') is not None else [(s, None)]):
                    if a.dead:
                        continue
                    v = self.value(a, v)
                    if v and v[0] in 'RM' and v[1] in a.res:
                        r = a.res[v[1]]
                        if r[2] == 'released':
                            self.say(x, 'gone|%s' % r[0], '%s is answered after it was released at line %s' % (NAMES[r[0]], r[3]))
                        else:
                            self.gives.add(r[0])
                            self.hand(a, v[1], x)
                    self.leave(a, x)
        elif k == 'brk':
            out['brk'] = ss
        elif k == 'cnt':
            out['cnt'] = ss
        elif k == 'try':
            self.tries.append([])
            o = self.stmt(x['b'], ss)
            thrown = self.cap(self.tries.pop())
            out = o
            for h in x['h']:
                o = self.stmt(h.get('b') if 's' in (h.get('b') or {}) else h, [s.copy() for s in thrown])
                for j in out:
                    out[j] = self.cap(out[j] + o[j])
        else:
            out['norm'] = ss
        return out

    def declare(self, v, ss):
        out = []
        for s in ss:
            if v.get('e') is None:
                if v.get('d'):
                    self.forget(s, ('v', v['d']))
                out.append(s)
                continue
            for a, w in self.ex(v['e'], s):
                if a.dead:
                    continue
                if v.get('static'):
                    self.escape(a, w)
                elif v.get('d'):
                    self.store(a, ('v', v['d']), w, v['e'], True)
                out.append(a)
        return self.cap(out)

    def top(self, e, s):
        for a, v in self.ex(e, s):
            yield a, v

    # ---- conditions
    def branch(self, c, ss):
        yes, no = [], []
        for s in ss:
            y, n = self.cond(c, s)
            yes += y
            no += n
        return self.cap(yes), self.cap(no)

    def cond(self, c, s):
        k = c.get('k')
        if k in ('ic', 'cast', 'paren'):
            return self.cond(c['e'], s)
        if k == 'un' and c['o'] == '!':
            y, n = self.cond(c['e'], s)
            return n, y
        if k == 'bin' and c['o'] in ('&&', '||'):
            y, n = self.cond(c['L'], s)
            if c['o'] == '&&':
                y2, n2 = self.branch(c['R'], y)
                return y2, n + n2
            y2, n2 = self.branch(c['R'], n)
            return y + y2, n2
        if k == 'bin' and c['o'] in ('==', '!='):
            for a, b in ((c['L'], c['R']), (c['R'], c['L'])):
                if self.zero(b):
                    y, n = self.test(a, s)
                    return (n, y) if c['o'] == '==' else (y, n)
        if c.get('cv') is not None and k in ('int', 'bool'):
            return ([s], []) if c['cv'] else ([], [s])
        return self.test(c, s)

    def zero(self, e):
        while e.get('k') in ('ic', 'cast'):
            e = e['e']
        return e.get('k') == 'null' or e.get('k') == 'int' and not e.get('cv') or e.get('k') == 'zero'

    def test(self, e, s):
        yes, no = [], []
        while e.get('k') in ('ic', 'cast'):
            e = e['e']
        for a, v in self.ex(e, s):
            if a.dead:
                continue
            pl = v[1] if v and v[0] == 'L' else None
            w = self.value(a, v)
            t, f = a, a.copy()
            if w and w[0] == 'I':
                (yes if w[1] else no).append(t)
                continue
            if w and w[0] == 'R':
                f.res.pop(w[1], None)
                for p in [p for p, x in f.val.items() if x == w]:
                    f.val[p] = ('I', 0)
                yes.append(t)
                no.append(f)
                continue
            if w and w[0] == 'M':       # may be missing
                t.val.update({p: ('R', w[1]) for p, x in t.val.items() if x == w})
                f.res.pop(w[1], None)
                f.val.update({p: ('I', 0) for p, x in f.val.items() if x == w})
                yes.append(t)
                no.append(f)
                continue
            if w and w[0] == 'T':
                t.res.pop(w[1], None)
                for st, b in ((t, ('I', 1)), (f, ('I', 0))):
                    st.val.update({p: b for p, x in st.val.items() if x == w})
                yes.append(t)
                no.append(f)
                continue
            if pl is not None:
                if pl in a.nz:
                    (yes if a.nz[pl] else no).append(t)
                    continue
                t.nz[pl], f.nz[pl] = True, False
            yes.append(t)
            no.append(f)
        return yes, no

    # ---- values
    def value(self, s, v):
        if v and v[0] == 'L':
            return s.val.get(v[1])
        return v

    def forget(self, s, p):
        for d in (s.val, s.nz, s.rel):
            for q in [q for q in d if q == p or q[0] == '*' and q[1] == p or q[0] == '.' and q[1] == p]:
                d.pop(q)

    def hand(self, s, site, node, to='handed on'):
        r = s.res.get(site)
        if r is None:
            return
        if r[2] == 'released':
            self.say(node, 'gone|%s' % r[0], '%s is handed on after it was released at line %s' % (NAMES[r[0]], r[3]))
        r[2], r[3] = to, node.get('l')

    def escape(self, s, v, node=None):
        v = self.value(s, v) or v
        if not v:
            return
        if v[0] == 'R' or v[0] == 'M':
            self.hand(s, v[1], node or {})
        elif v[0] == 'A':       # an address: what is kept there may be released by others
            w = s.val.get(v[1])
            if w and w[0] in 'RM':
                self.hand(s, w[1], node or {})
            for site, r in s.res.items():
                if site[0] == 'at' and site[1] == v[1]:
                    r[2] = 'handed on'
        elif v[0] == 'P':
            self.keeps.add(v[1])

    def store(self, s, p, v, node, fresh=False):
        w = self.value(s, v)
        self.forget(s, p)
        if p[0] == 'm':
            kind = None
            if w and w[0] in 'RM':
                kind = s.res[w[1]][0] if w[1] in s.res else None
                self.hand(s, w[1], node)
            elif w and w[0] == 'P' and (self.fn.get('cls'), p[1]) in dropped(self.P):
                self.keeps.add(w[1])
            if kind:
                self.stores.append((p[1], kind, node))
            return
        if w and w[0] == 'B' and p[0] == '*' and w[1] and w[1][0] == 'v' and w[1][1] not in self.pars:
            self.say(node, 'lent|out', 'an object is handed out that its owner (line %s) releases at the end of the function' % w[2])
        if p[0] in '*g.' or p[0] == '[]':
            if p[0] == '*' and p[1][0] == 'v' and p[1][1] in self.pars and w and w[0] in 'RM' and w[1] in s.res:
                self.outs.add((self.pars[p[1][1]], s.res[w[1]][0]))
            self.escape(s, w, node)
            return
        if w is not None:
            s.val[p] = w
        if w and w[0] == 'R':
            s.nz.pop(p, None)

    def acquire(self, s, kind, node, may=False, at=None):
        site = ('at', at, kind) if at else (id(node), kind)
        self.n['acquired'] += 1
        old = s.res.get(site)
        if old and old[2] == 'held':
            self.say({'l': old[1]}, 'again|%s' % kind, '%s acquired here is still held when line %s acquires again' % (NAMES[kind], node.get('l')))
        for p in [p for p, x in s.val.items() if x[0] in 'RMT' and x[1] == site]:
            s.val.pop(p)
        s.res[site] = [kind, node.get('l'), 'held', None]
        return ('M' if may else 'R', site)

    def release(self, s, v, kind, node):
        self.n['released'] += 1
        w = self.value(s, v)
        if w and w[0] == 'I' and not w[1]:
            return
        if w and w[0] in 'RM':
            r = s.res.get(w[1])
            if r is None:
                return
            if r[0] != kind:
                self.say(node, 'kind|%s|%s' % (r[0], kind), '%s of line %s is released with %s, not with %s' % (
                    NAMES[r[0]], r[1], CALLS[kind], CALLS[r[0]]))
            elif r[2] == 'released':
                self.say(node, 'twice|%s' % kind, '%s of line %s is released again after line %s' % (NAMES[kind], r[1], r[3]))
            elif r[2] == 'handed on':
                self.say(node, 'owned|%s' % kind, '%s of line %s is released here, but line %s handed it to another owner' % (
                    NAMES[kind], r[1], r[3]))
            r[2], r[3] = 'released', node.get('l')
            return
        if w and w[0] == 'B':
            self.say(node, 'lent', 'an object that has an owner (line %s) is released here' % w[2])
            return
        if w and w[0] == 'P':
            self.takes.add((w[1], kind))
        if v and v[0] == 'L':
            p = v[1]
            if p[0] == 'm':
                self.drops.add((p[1], kind))
            old = s.rel.get(p)
            if old:
                self.say(node, 'twice|%s' % kind, '%s is released again after line %s' % (self.show(p), old[1]))
            s.rel[p] = (kind, node.get('l'))
            if p[0] == 'm':
                s.ever |= {p}

    def show(self, p):
        if p[0] == 'm':
            return str(p[1])
        if p[0] == 'v':
            return str(p[1]).split('@')[0]
        if p[0] in '*[':
            return '*' + self.show(p[1])
        return str(p[-1])

    def throws(self, s):
        if self.tries:
            self.tries[-1].append(s.copy())

    # ---- expressions
    def ex(self, e, s):
        if e is None or s.dead:
            return [(s, None)]
        m = getattr(self, 'x_' + e.get('k', ''), None)
        if m:
            return m(e, s)
        return self.parts(e, s)

    def parts(self, e, s):
        """an expression of no meaning here"""
        ss = [s]
        for x in e.values():
            for y in x if isinstance(x, list) else [x]:
                if isinstance(y, dict) and 'k' in y:
                    ss = self.cap([a for t in ss for a, v in self.ex(y, t)])
        return [(a, None) for a in ss]

    def x_ref(self, e, s):
        if e.get('dk') in ('var', 'parm') and e.get('d'):
            return [(s, ('L', ('v', e['d'])))]
        if e.get('dk') == 'gvar' or e.get('dk') == 'svar':
            return [(s, ('L', ('g', e.get('q') or e.get('n'))))]
        return [(s, None)]

    def x_mem(self, e, s):
        out = []
        for a, v in self.ex(e['b'], s):
            if e['b'].get('k') == 'this' or v == ('this',):
                out.append((a, ('L', ('m', e['f']))))
            elif v and v[0] == 'L':
                out.append((a, ('L', ('.', v[1], e['f']))))
            else:
                out.append((a, None))
        return out

    def x_this(self, e, s):
        return [(s, ('this',))]

    def x_ic(self, e, s):
        out = []
        for a, v in self.ex(e['e'], s):
            if e['ck'] == 'LValueToRValue':
                out.append((a, self.value(a, v) or v))
            else:
                out.append((a, v))
        return out

    def x_cast(self, e, s):
        return self.ex(e['e'], s)

    def x_null(self, e, s):
        return [(s, ('I', 0))]

    x_zero = x_null

    def x_int(self, e, s):
        return [(s, ('I', e['cv']))] if isinstance(e.get('cv'), int) else [(s, None)]

    def x_un(self, e, s):
        out = []
        if e['o'] == '!':
            y, n = self.cond(e, s)
            return [(a, ('I', 1)) for a in y] + [(a, ('I', 0)) for a in n]
        for a, v in self.ex(e['e'], s):
            if e['o'] == '&':
                if v and v[0] == 'L':
                    out.append((a, v[1] if v[1][0] == '@' else ('A', v[1])))
                    continue
                out.append((a, None))
            elif e['o'] == '*':
                w = self.value(a, v)
                if w and w[0] == 'A':
                    out.append((a, ('L', w[1])))
                elif v and v[0] == 'L':
                    out.append((a, ('L', ('*', v[1]))))
                elif w and w[0] == 'P':
                    out.append((a, ('L', ('*', ('v', self.fn['ps'][w[1]]['d'])))))
                else:
                    out.append((a, None))
            else:
                if v and v[0] == 'L' and e['o'] in ('++', '--', 'post++', 'post--'):
                    self.forget(a, v[1])
                out.append((a, None))
        return out

    def x_asg(self, e, s):
        out = []
        for a, w in self.ex(e['R'], s):
            for b, l in self.ex(e['L'], a):
                if l and l[0] == 'L':
                    if e.get('o') in ('=', None):
                        w2 = self.value(b, w)
                        if l[1][0] == 'm' and w2 and w2[0] in 'RM' and self.fn.get('ck') not in ('other', 'default', 'copy', 'move'):
                            self.replaced(b, l[1], e)
                        elif l[1][0] == 'm' and e['L'].get('k') == 'mem' and not (w2 and w2[0] in 'RM') and not self.fn.get('ck') and (
                                self.fn.get('cls'), l[1][1]) in dropped(self.P) and not self.read(l[1][1]):
                            self.replaced(b, l[1], e)
                        self.store(b, l[1], w, e)
                    else:
                        self.forget(b, l[1])
                elif w:
                    self.escape(b, w, e)
                out.append((b, l))
        return out

    def read(self, name):
        """the function takes what the member points to for something else than to look whether there is any"""
        if not hasattr(self, '_read'):
            self._read = {}
        if name not in self._read:
            hit = []

            def look(x, used):
                if isinstance(x, list):
                    for y in x:
                        look(y, used)
                    return
                if not isinstance(x, dict):
                    return
                k = x.get('k')
                if k == 'mem' and x['b'].get('k') == 'this' and x['f'] == name:
                    if used:
                        hit.append(x)
                    return
                for key, y in x.items():
                    if not isinstance(y, (dict, list)):
                        continue
                    u = True
                    if k == 'asg' and key == 'L' or k == 'mem' and key == 'b' or k == 'call' and key == 'ob' or k == 'del':
                        u = False
                    elif key == 'c' or k in ('ic', 'cast', 'paren', 'mat') or k == 'un' and x.get('o') in ('!', '*') or k == 'bin' and (
                            x.get('o') in ('==', '!=', '&&', '||')):
                        u = used if k in ('ic', 'cast', 'paren', 'mat') else False
                    look(y, u)
            look(self.fn['body'], True)
            self._read[name] = bool(hit)
        return self._read[name]

    def replaced(self, s, p, node):
        """a member is given another object"""
        if s.rel.get(p) or s.nz.get(p) is False or s.val.get(p) == ('I', 0):
            return
        self.stores.append((p[1], 'over', node))

    def x_bin(self, e, s):
        if e['o'] in ('&&', '||', '==', '!=') and self.interesting(e):
            y, n = self.cond(e, s)
            return [(a, ('I', 1)) for a in y] + [(a, ('I', 0)) for a in n]
        out = []
        for a, v in self.ex(e['L'], s):
            for b, w in self.ex(e['R'], a):
                out.append((b, w if e['o'] == ',' else None))
        return out

    def interesting(self, e):
        return e['o'] in ('&&', '||') or self.zero(e['L']) or self.zero(e['R'])

    def x_cond(self, e, s):
        y, n = self.cond(e['c'], s)
        return [r for a in y for r in self.ex(e['T'], a)] + [r for a in n for r in self.ex(e['F'], a)]

    def x_idx(self, e, s):
        out = []
        for a, v in self.ex(e['b'], s):
            for b, w in self.ex(e['i'], a):
                out.append((b, ('L', ('[]', v[1])) if v and v[0] == 'L' else None))
        return out

    def x_lam(self, e, s):
        for c in e.get('caps') or ():
            d = c.get('d')
            if d:
                self.escape(s, ('L', ('v', d)))
                self.escape(s, ('A', ('v', d)))
                if c.get('ref') or c.get('r'):
                    self.forget(s, ('v', d))
        return [(s, None)]

    def x_throw(self, e, s):
        ss = [a for a, v in self.ex(e['e'], s)] if e.get('e') is not None else [s]
        for a in ss:
            if self.tries:
                self.tries[-1].append(a.copy())
            else:
                self.leave(a, e, 'throws')
            a.dead = True
        return [(a, None) for a in ss]

    def x_new(self, e, s):
        out = []
        if e.get('pl'):
            return self.parts(e, s)
        for a in [a for a, v in (self.ex(e['n'], s) if e.get('n') is not None else [(s, None)])]:
            for b, v in (self.ex(e['e'], a) if e.get('e') is not None else [(a, None)]):
                self.throws(b)
                out.append((b, self.acquire(b, 'new[]' if e.get('arr') else 'new', e)))
        return out

    def x_del(self, e, s):
        out = []
        for a, v in self.place(e['e'], s):
            self.release(a, v, 'new[]' if e.get('arr') else 'new', e)
            out.append((a, None))
        return out

    def place(self, e, s):
        """the place a value is read from, if it is read from one"""
        while e.get('k') in ('ic', 'cast'):
            e = e['e']
        return self.ex(e, s)

    def x_init(self, e, s):
        if len(e['a']) == 1 and self.P.ty(e['t']).get('k') != 'rec':
            return self.ex(e['a'][0], s)
        ss = [s]
        for x in e['a']:
            nxt = []
            for t in ss:
                for a, v in self.ex(x, t):
                    self.escape(a, v, e)
                    nxt.append(a)
            ss = self.cap(nxt)
        return [(a, None) for a in ss]

    def seq(self, es, s):
        cur = [(s, [])]
        for x in es:
            cur = [(b, vs + [v]) for a, vs in cur for b, v in self.ex(x, a)]
            if len(cur) > LIMIT:
                self.over = True
                cur = cur[:LIMIT]
        return [(a, vs) for a, vs in cur if not a.dead]

    def x_ctor(self, e, s):
        out = []
        q = strip_targs(e.get('q') or '').rpartition('::')[0]
        g = self.P.fns.get(e.get('f'))
        for a, vs in self.seq(e['a'], s):
            if not e.get('nx'):
                self.throws(a)
            if q in OWNERS:
                self.owner(a, e, e.get('q') or '', vs)
            elif q.startswith('std::'):
                for v in vs:
                    self.kept(a, v, e)
            else:
                self.pass_on(a, e, g, vs, ctor=True)
            out.append((a, None))
        return out

    def owner(self, s, e, q, vs):
        """a smart pointer takes an object"""
        for i, v in enumerate(vs[:1]):
            w = self.value(s, v)
            if w and w[0] in 'RM' and w[1] in s.res:
                r = s.res[w[1]]
                if r[2] == 'handed on':
                    self.say(e, 'owned|%s' % r[0], '%s of line %s is given to an owner, but line %s handed it to another' % (
                        NAMES[r[0]], r[1], r[3]))
                targs = q[q.find('<'):]
                want = None
                if 'default_delete' in targs or len(vs) == 1 and 'unique_ptr' in q and 'delete' not in targs:
                    want = 'new[]' if '[]' in targs.split(',')[0] else 'new'
                if want and r[0] != want:
                    self.say(e, 'kind|%s|%s' % (r[0], want), '%s of line %s is given to an owner that releases it with %s' % (
                        NAMES[r[0]], r[1], CALLS[want]))
                self.hand(s, w[1], e)
            elif w and w[0] == 'B':
                self.say(e, 'lent', 'an object that has an owner already (line %s) is given to another' % w[2])
            elif w and w[0] == 'P':
                self.keeps.add(w[1])
                self.owns.add(w[1])

    def kept(self, s, v, e):
        w = self.value(s, v)
        if w and w[0] in 'RMP' and not (v and v[0] == 'A'):
            if w[0] == 'P':
                return
            # read (a string of a C string), not kept
            t = e.get('q') or ''
            if 'basic_string' in t.split('<')[0]:
                return
            self.hand(s, w[1], e)

    def pass_on(self, s, e, g, vs, ctor=False):
        u = self.sum.get(g['f']) if g is not None else None
        for i, v in enumerate(vs):
            w = self.value(s, v)
            t = v if v and v[0] == 'A' else None
            if u is not None:
                for j, kind in u['takes']:
                    if j == i and kind == 'regex':
                        if v and v[0] in 'AL':
                            self.regfree(s, v[1], e)
                        elif v and v[0] == 'P':
                            self.takes.add((v[1], kind))
                    elif j == i:
                        self.release(s, v, kind, e)
                        w = None
                for j, kind in u['outs']:
                    if j == i and kind == 'regex':
                        p = v[1] if v and v[0] in 'AL' else None
                        if p and p[0] == 'v' and p[1] not in self.pars and ('at', p, 'regex') not in s.res:
                            s.res[('at', p, 'regex')] = ['regex', e.get('l'), 'unknown', e.get('l')]
                        elif p and p[0] == 'v' and p[1] in self.pars:
                            self.outs.add((self.pars[p[1]], 'regex'))
                        continue
                    if j == i and t is not None and t[1][0] == 'v':
                        self.forget(s, t[1])
                        s.val[t[1]] = self.acquire(s, kind, e, True)
                        w, t = None, None
                if i in u['owns'] and w and w[0] == 'B':
                    self.say(e, 'lent', 'an object that has an owner already (line %s) is given to another' % w[2])
                elif i in u['owns'] and w and w[0] == 'P':
                    self.owns.add(w[1])
                if i in u['keeps']:
                    self.escape(s, v, e)
                elif t is not None:
                    self.forget_scalar(s, t[1])
                continue
            if g is not None and g.get('body') is None and ctor:
                self.escape(s, v, e)
            elif t is not None:
                self.forget_scalar(s, t[1])
            elif v and v[0] == 'L' and i < len(e.get('pk') or '') and e['pk'][i] == 'r' and v[1] in s.val and s.val[v[1]][0] == 'I':
                self.forget(s, v[1])

    def forget_scalar(self, s, p):
        w = s.val.get(p)
        if w is None or w[0] not in 'RM':
            self.forget(s, p)

    def x_call(self, e, s):
        q = strip_targs(e.get('q') or '')
        m = q.rpartition('::')[2]
        g = self.P.fns.get(e.get('f'))
        out = []
        ob = e.get('ob')
        if q == 'std::move' or q == 'std::forward':
            return self.ex(e['a'][0], s)
        if (q in FREE or q in PUTS) and len(e['a']) == 1:
            for a, v in self.place(e['a'][0], s):
                self.release(a, v, PUTS.get(q, 'malloc'), e)
                out.append((a, None))
            return out
        if q == 'regfree':
            for a, v in self.ex(e['a'][0], s):
                w = self.value(a, v) if v and v[0] == 'L' else v
                self.n['released'] += 1
                if w and w[0] == 'A':
                    self.regfree(a, w[1], e)
                elif v and v[0] == 'L':
                    self.n['released'] -= 1
                    self.release(a, v, 'regex', e)
                elif w and w[0] == 'P':
                    self.takes.add((w[1], 'regex'))
                out.append((a, None))
            return out
        es = ([ob] if ob is not None else []) + ([e['ce']] if e.get('ce') is not None else []) + e['a']
        skip = len(es) - len(e['a'])
        for a, vs in self.seq(es, s):
            o, vs = (vs[0] if ob is not None else None), vs[skip:]
            if not e.get('nx') and not self.plain(e, q, g):
                self.throws(a)
            res = None
            if e.get('nr'):
                a.dead = True
                out.append((a, None))
                continue
            if q == 'regcomp':
                v = self.value(a, vs[0]) if vs[0] and vs[0][0] == 'L' else vs[0]
                if v and v[0] == 'P':
                    self.outs.add((v[1], 'regex'))
                if v and v[0] == 'A':
                    p = v[1]
                    r = self.acquire(a, 'regex', e, at=p)
                    res = ('T', r[1])
                    if p[0] == 'v' and p[1] in self.pars:
                        self.outs.add((self.pars[p[1]], 'regex'))
                    if p[0] != 'v' or p[1] in self.pars:
                        self.hand(a, r[1], e)
                        if p[0] == 'm':
                            self.stores.append((p[1], 'regex', e))
            elif q in GETS:
                res = self.acquire(a, GETS[q], e, True)
            elif q in STRINGS or q.startswith('std::') and m in STRINGS:
                res = self.acquire(a, 'malloc', e, True)
            elif ob is not None and strip_targs(q.rpartition('::')[0]) in OWNERS:
                if m == 'get' and not self.lets_go(e):
                    res = ('B', o[1] if o and o[0] == 'L' else None, e.get('l'))
                elif m == 'release' and not self.lets_go(e, 'get') and self.P.ty(e['t']).get('k') == 'ptr':
                    res = self.acquire(a, 'new[]' if '[]' in (e.get('q') or '').split(',')[0] else 'new', e, True)
                    if e.get('t') is not None:
                        pass
                elif m in ('reset', 'operator='):
                    self.owner(a, e, e.get('q') or '', vs)
            elif q.startswith('std::') or q.startswith('__gnu_cxx::'):
                if m in ('push_back', 'emplace_back', 'insert', 'emplace', 'push', 'operator[]', 'assign', 'set_value'):
                    for v in vs:
                        self.kept(a, v, e)
                elif m in ('make_unique', 'make_shared', 'bind', 'swap', 'exchange', 'make_pair', 'make_tuple', 'tie', 'ref', 'addressof'):
                    for v in vs:
                        self.escape(a, v, e)
            else:
                self.pass_on(a, e, g, vs)
                u = self.sum.get(g['f']) if g is not None else None
                if u is not None and u['gives'] and not e.get('vt'):
                    res = self.acquire(a, sorted(u['gives'])[0], e, True)
                if g is None and e.get('ce') is not None or e.get('vt'):
                    for v in vs:
                        self.escape(a, v, e)
            out.append((a, res))
        return out

    def lets_go(self, e, m='release'):
        """another call of the function takes the object from the owner this one looks at"""
        z = self.shape(e['ob'])
        return any(x is not e and x.get('k') == 'call' and x.get('ob') is not None and x.get('q', '').endswith('::' + m) and
                   strip_targs(x['q'].rpartition('::')[0]) in OWNERS and self.shape(x['ob']) == z for x in self.all())

    def shape(self, e):
        if isinstance(e, dict):
            return tuple((k, self.shape(v)) for k, v in sorted(e.items()) if k not in ('l', 'el', 'c', 't', 'f') or k == 'f' and e.get('k') == 'mem')
        if isinstance(e, list):
            return tuple(self.shape(x) for x in e)
        return e

    def all(self):
        if not hasattr(self, '_all'):
            from front import walk
            self._all = [x for x in walk([self.fn['body'], self.fn.get('inits') or []])]
        return self._all

    def plain(self, e, q, g):
        """a function of C throws nothing"""
        return g is None and '::' not in q or g is not None and g.get('body') is None and '::' not in q or q in ('std::memcpy', 'std::memset', 'std::strlen')

    def regfree(self, s, p, node):
        site = ('at', p, 'regex')
        r = s.res.get(site)
        if p[0] == 'm':
            self.drops.add((p[1], 'regex'))
        if r is None:
            if p[0] == 'v' and p[1] in self.pars:
                self.takes.add((self.pars[p[1]], 'regex'))
            elif p[0] == 'v':
                self.say(node, 'none|regex', 'an expression that was not compiled on this path is released')
            return
        if r[2] == 'released':
            self.say(node, 'twice|regex', 'the compiled expression of line %s is released again after line %s' % (r[1], r[3]))
        elif r[2] == 'handed on' and p[0] == 'v':
            self.say(node, 'owned|regex', 'the compiled expression of line %s is released here, but line %s handed it to another owner' % (r[1], r[3]))
        r[2], r[3] = 'released', node.get('l')


def relevant(P):
    """functions that acquire or release, and those that call them"""
    from front import walk
    own, calls = set(), {}
    for f in P.fns.values():
        if f.get('body') is None:
            continue
        cs = set()
        for x in walk([f['body'], f.get('inits') or []]):
            k = x.get('k')
            if k in ('new', 'del'):
                own.add(f['f'])
            elif k == 'asg' and x['L'].get('k') == 'mem' and x['L']['b'].get('k') == 'this' and (f.get('cls'), x['L']['f']) in dropped(P):
                own.add(f['f'])
            elif k in ('call', 'ctor'):
                q = strip_targs(x.get('q') or '')
                if q in ('regcomp', 'regfree') or q in FREE or q in STRINGS or q in GETS or q in PUTS or q.endswith('::release') or (
                        q.endswith('::get') and strip_targs(q.rpartition('::')[0]) in OWNERS) or q.endswith(tuple('::' + x for x in STRINGS)):
                    own.add(f['f'])
                if x.get('f'):
                    cs.add(x['f'])
        calls[f['f']] = cs
    return own, calls


def program(P):
    """what every function answers, writes, releases and keeps"""
    own, calls = relevant(P)
    callers = {}
    for f, cs in calls.items():
        for c in cs:
            callers.setdefault(c, set()).add(f)
    # what a caller of what matters does may matter to its callers
    sums = {}
    todo = set(own)
    for f in P.fns.values():       # functions that only keep a pointer they are given
        if f.get('body') is not None and f['f'] in calls and any(P.ty(p['t']).get('k') == 'ptr' for p in f['ps']):
            todo.add(f['f'])
    for r in range(6):
        nxt = set()
        for u in sorted(todo):
            o = Own(P, sums, P.fns[u]).run()
            new = {'gives': frozenset(o.gives), 'outs': frozenset(o.outs), 'takes': frozenset(o.takes), 'keeps': frozenset(o.keeps), 'owns': frozenset(o.owns)}
            if sums.get(u) != new:
                if any(new.values()) or any(sums.get(u, {}).values()):
                    nxt |= {c for c in callers.get(u, ()) if c in calls}
                sums[u] = new
        if not nxt:
            break
        todo = nxt
    matter = own | {c for u, x in sums.items() if any(x.values()) for c in callers.get(u, ())} | {
        u for u, x in sums.items() if any(x.values())}
    return sums, matter

"""Absence: what a function looked up and may not have found is not used as if it were there.

On the walk of `life`: each expression that answers an iterator or pointer that may be the end or null is a source; reading
through it needs the path to have asked.  A state keeps facts: ('nn', key) whether the pointer or iterator of that key is there,
('nul', decl, version) why a variable may hold none."""
import life
from front import strip_targs

LOOK = {'find', 'lower_bound', 'upper_bound', 'find_if', 'find_if_not', 'search', 'adjacent_find', 'find_first_of', 'find_end', 'search_n', 'partition_point'}
CLIB = {'strchr', 'strrchr', 'strstr', 'strpbrk', 'fopen', 'getenv', 'memchr', 'std::strchr', 'std::strstr', 'std::getenv',
        'std::strrchr', 'std::fopen', 'std::memchr', 'std::strpbrk'}
SFIND = {'find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'}
SPOS = {'substr', 'erase', 'insert', 'replace', 'at', 'operator[]'}
ENDS = {'end', 'cend', 'rend', 'crend'}
GROWS = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace', 'append', 'assign', 'operator=', 'resize',
         'swap', 'operator+=', 'set', 'operator[]', 'merge', 'reset'}
EMPTIES = {'clear'}


def strip(e):
    while isinstance(e, dict):
        if e.get('k') == 'ic' or e.get('k') == 'cast' and e.get('kk') not in ('Dynamic',):
            e = e['e']
        elif e.get('k') == 'ctor' and len(e.get('a', ())) == 1 and e.get('ck') in ('copy', 'move'):
            e = e['a'][0]
        elif e.get('k') == 'ctor' and len(e.get('a', ())) == 1 and strip_targs(e.get('q') or '').startswith(life.ITERS):
            e = e['a'][0]
        elif e.get('k') == 'call' and strip_targs(e.get('q') or '') in ('std::move', 'std::forward', 'std::as_const') and len(e['a']) == 1:
            e = e['a'][0]
        else:
            return e
    return e


def method_of(e):
    return strip_targs(e.get('q') or '').rpartition('::')[2]


class Nul(life.Life):
    def holds(self, t):
        return self.kind_of(t) in ('it', 'ptr') or self.isowner(t)

    def ispos(self, e):
        e = strip(e)
        return e.get('k') == 'call' and strip_targs(e.get('q') or '').rpartition('::')[0] == 'std::basic_string' and method_of(e) in SFIND

    def isowner(self, t):
        return strip_targs(self.P.ty(t)['s'].replace('const ', '', 1) if self.P.ty(t)['s'].startswith('const ') else self.P.ty(t)['s']) == 'std::unique_ptr'

    def __init__(self, P, sums, fn, report=None):
        super().__init__(P, sums[0], fn, None)
        self.nsum, self.needs, self.nreport = sums[1], sums[2], report
        self.maynull = set()       # for each path that answers nothing, the parameters that are absent on it
        self.must = set()          # parameters read through without a question
        self.said2 = set()
        self.home = fn
        self.cnt = {}
        self.sources = 0
        self.pindex = {p['d']: i for i, p in enumerate(fn['ps'])}

    def count(self, k):
        self.cnt[k] = self.cnt.get(k, 0) + 1

    # ---- what is met again
    def ckey(self, e, s):
        e = strip(e) if isinstance(e, dict) else e
        if isinstance(e, dict) and e.get('k') == 'call' and strip_targs(e.get('q') or '') == 'std::unique_ptr::get' and not e.get('ar'):
            return self.ckey(e['ob'], s)
        if isinstance(e, dict) and e.get('k') == 'mem' and strip(e['b']).get('k') == 'this':
            return ('m', ('this',), e['f'], (s.ver.get(('tm', e['f']), 0), s.ver.get('own', 0)))
        if isinstance(e, dict) and e.get('k') == 'call' and self.kind_of(e['t']) in ('it', 'ptr'):
            q = strip_targs(e.get('q') or '')
            if q.startswith('std::') and method_of(e) in LOOK | ENDS | {'begin'}:
                xs = [self.ckey(x, s) for x in ([e['ob']] if e.get('ob') is not None else []) + e['a']]
                if all(xs):
                    return ('call', q, tuple(xs), 0 if self.steady(e.get('ob')) else s.ver.get('mem', 0))
        if isinstance(e, dict) and e.get('k') == 'str':
            return ('s', e.get('v') or e.get('s') or repr(sorted(e.items(), key=str)))
        if isinstance(e, dict) and e.get('k') == 'ctor' and e['a'] and all(not a.get('da') or True for a in e['a']):
            xs = [self.ckey(a, s) for a in e['a'] if not a.get('da')]
            return ('ctor', e['t'], tuple(xs)) if xs and all(xs) else None
        k = super().ckey(e, s)
        if k is not None and k[0] in ('call', 'm', '*') and isinstance(k[-1], int) and self.steady(e):
            k = k[:-1] + (0,)
        return k

    def steady(self, e):
        """reached over const references only from a parameter or local: not changed on the way"""
        while True:
            e = strip(e) if isinstance(e, dict) else e
            if not isinstance(e, dict):
                return False
            k = e.get('k')
            if k == 'ref':
                return e.get('dk') in ('var', 'parm') and self.constref(e)
            if k == 'mem':
                e = e['b']
            elif k == 'call' and e.get('ob') is not None and e.get('cst') and all('cv' in strip(a) or True for a in e['a']):
                e = e['ob']
            elif k == 'un' and e['o'] == '*':
                e = e['e']
            else:
                return False

    def constref(self, e):
        t = self.P.ty(e['t'])
        if t['k'] == 'ptr':
            t = self.P.ty(t['p'])
        return bool(t['s'].startswith('const ') or t.get('q'))

    # ---- sources
    def source(self, e, s):
        """why e may be absent, or None"""
        e = strip(e)
        if not isinstance(e, dict):
            return None
        k = self.ckey(e, s)
        if k is not None:
            t = s.facts.get(('nn', k), s.facts.get(k))
            if t is True:
                return None
            if t is False:
                return 'it is absent here'
        if e['k'] == 'null' or ('cv' in e and e['cv'] == 0 and self.P.ty(e['t'])['k'] == 'ptr'):
            return 'it is null'
        if e['k'] == 'ref' and e.get('dk') in ('var', 'parm'):
            return s.facts.get(('nul', e['d'], s.ver.get(e['d'], 0)))
        if e['k'] == 'cast' and e.get('kk') == 'Dynamic':
            return 'the cast may fail' if self.P.ty(e['t'])['k'] == 'ptr' else None
        if e['k'] == 'ctor' and self.isowner(e['t']):
            if not e['a']:
                return 'it is empty'
            return self.source(e['a'][0], s) if self.P.ty(strip(e['a'][0])['t'])['k'] == 'ptr' or strip(e['a'][0])['k'] == 'null' or \
                self.isowner(strip(e['a'][0])['t']) else None
        if e['k'] == 'cond':
            for b, truth in ((e['T'], True), (e['F'], False)):
                t = s.copy()
                if self.learn(e['c'], t, truth):
                    w = self.source(b, t)
                    if w:
                        return w
            return None
        if e['k'] == 'call':
            q = strip_targs(e.get('q') or '')
            m = q.rpartition('::')[2]
            if self.ispos(e):
                return '%s may find nothing' % m
            if q in CLIB:
                return '%s may find nothing' % m
            if q.startswith('std::') and self.kind_of(e['t']) in ('it', 'ptr'):
                if m in LOOK:
                    return '%s may find nothing' % m
                if m in ENDS and not e['a']:
                    return 'it is the end'
            u = self.nsum.get(e.get('f'))
            if u and not e.get('vt') and any(all(i < len(e['a']) and self.source(e['a'][i], s) for i in ps) for ps in u):
                return '%s may answer nothing' % m
        return None

    def name(self, y):
        return y.get('n') or (y.get('f') if y.get('k') == 'mem' else None) or method_of(y) or ('the cast' if y.get('k') == 'cast' else y.get('k'))

    def need(self, x, e, s, how):
        """reading through e"""
        y = strip(e)
        self.count('read through a pointer or iterator')
        if y.get('k') == 'ref' and y.get('d') in self.pindex and self.kind_of(y['t']) == 'ptr':
            k = self.ckey(y, s)
            if s.ver.get(y['d'], 0) == 0 and s.facts.get(('nn', k), s.facts.get(k)) is None:
                self.must.add(self.pindex[y['d']])
        w = self.source(e, s)
        k = self.ckey(y, s)
        if w is None:
            if y.get('k') == 'call' or k is not None and y.get('k') == 'ref' and ('look', y['d'], s.ver.get(y['d'], 0)) in s.facts:
                self.count('found or not, and asked')
            return
        n = self.name(y)
        self.complain(x, '%s|%s' % (n, how), '%s %s, but %s' % (n, how, w))
        if k is not None:
            s.facts[('nn', k)] = True

    def position(self, x, e, s):
        y = strip(e)
        k = self.ckey(y, s)
        w = None
        if y.get('k') == 'ref' and 'd' in y:
            w = s.facts.get(('nul', y['d'], s.ver.get(y['d'], 0)))
        elif self.ispos(y):
            w = self.source(y, s)
        if w is None:
            return
        self.count('found or not, and asked')
        if k is None or s.facts.get(('nn', k)) is not True:
            self.complain(x, '%s|is used as a position' % self.name(y), '%s is used as a position, but %s' % (self.name(y), w))

    def complain(self, x, key, text):
        if self.nreport and (key, x.get('l')) not in self.said2:
            self.said2.add((key, x.get('l')))
            self.nreport(self.fn, x, key, text)

    # ---- where absence is learnt
    def learn(self, c, s, truth):
        r = super().learn(c, s, truth)
        if not r or c is None:
            return r
        e = strip(c)
        if e.get('k') == 'asg' and e['o'] == '=':
            k = self.ckey(strip(e['L']), s)
            if k is not None and self.holds(e['L']['t']):
                s.facts[('nn', k)] = truth
        if e.get('k') == 'ref' and 'd' in e:
            new = s.facts.get(('flag', e['d'], s.ver.get(e['d'], 0), truth))
            if new:
                s.facts.update(new)
        if e.get('k') in ('bin', 'call'):
            o = e.get('o') if e['k'] == 'bin' else e.get('op')
            self.counted(e, o, s, truth)
            if o in ('==', '!='):
                l, r2 = (e['L'], e['R']) if e['k'] == 'bin' else self.two(e)
                if l is not None:
                    l, r2 = strip(l), strip(r2)
                    for a, b in ((l, r2), (r2, l)):
                        a = self.target(a)
                        if self.nothing(b) and self.same(a, b, s):
                            k = self.ckey(a, s)
                            if k is not None:
                                t = (o == '!=') == truth
                                if s.facts.get(('nn', k), t) != t:
                                    return False
                                s.facts[('nn', k)] = t
            elif o in ('<', '>') and truth and e['k'] == 'bin':
                a = strip(e['L' if o == '<' else 'R'])
                k = self.ckey(a, s)
                if k is not None and a.get('k') == 'ref':
                    s.facts[('nn', k)] = True
            elif e['k'] == 'call' and method_of(e) == 'operator bool' and e.get('ob') is not None:
                k = self.ckey(strip(e['ob']), s)
                if k is not None:
                    s.facts[('nn', k)] = truth
        return True

    def target(self, a):
        """(p = find(..)) stands for p"""
        if a.get('k') == 'asg' and a['o'] == '=':
            return strip(a['L'])
        if a.get('k') == 'call' and method_of(a) == 'operator=' and a.get('ob') is not None:
            return strip(a['ob'])
        return a

    def counted(self, e, o, s, truth):
        """m.count(k): there is something to find"""
        if e['k'] == 'bin' and o in ('>', '!=', '==', '>='):
            n = strip(e['R']).get('cv')
            if (o, n) in (('>', 0), ('!=', 0), ('>=', 1), ('==', 1)):
                e = strip(e['L'])
            elif (o, n) == ('==', 0):
                e, truth = strip(e['L']), not truth
        q = strip_targs(e.get('q') or '') if e.get('k') == 'call' else ''
        if q.startswith('std::') and q.rpartition('::')[2] in ('count', 'contains') and e.get('ob') is not None and len(e['a']) == 1:
            xs = [self.ckey(x, s) for x in (e['ob'], e['a'][0])]
            if all(xs):
                f = q.rpartition('::')[0] + '::find'
                s.facts[('nn', ('call', f, tuple(xs), 0 if self.steady(e['ob']) else s.ver.get('mem', 0)))] = truth

    def two(self, e):
        xs = ([e['ob']] if e.get('ob') is not None else []) + e['a']
        return xs if len(xs) == 2 else (None, None)

    def nothing(self, e):
        if e.get('k') in ('ref', 'mem') and (e.get('n') or e.get('f')) == 'npos' or e.get('cv') in (-1, 2 ** 64 - 1):
            return True
        if e.get('k') == 'null' or ('cv' in e and e['cv'] == 0):
            return True
        if e.get('k') == 'ref' and self.kind_of(e['t']) == 'it':
            return True            # what it stands for is looked at in `same`
        return e.get('k') == 'call' and method_of(e) in ENDS and not (e['a'] and e.get('ob') is not None)

    def same(self, a, b, s):
        """the end b is the end of what a was looked up in"""
        if self.kind_of(a['t']) != 'it':
            return True
        if b.get('k') == 'ref' and 'd' in b:
            kb = s.facts.get(('of', b['d'], s.ver.get(b['d'], 0)))
            if kb is None:
                return b['d'] in self.pindex and self.asks_param(a, b, s)
            if kb[0] != 'end':
                return False
            kb = kb[1]
        else:
            kb = self.shape(b['ob'] if b.get('ob') is not None else b['a'][0], s) if b.get('k') == 'call' else None
        ka = None
        if a.get('k') == 'ref' and 'd' in a:
            w = s.facts.get(('of', a['d'], s.ver.get(a['d'], 0)))
            ka = w[1] if w else None
        elif a.get('k') == 'call':
            ka = self.searched(a, s)
        return ka is None or kb is None or ka == kb

    def shape(self, e, s):
        """which container: by the names that lead to it, const or not"""
        e = strip(e)
        k = e.get('k')
        if k == 'ref' and e.get('dk') in ('var', 'parm'):
            return ('v', e['d'])
        if k == 'this':
            return ('this',)
        if k == 'mem':
            b = self.shape(e['b'], s)
            return b and ('m', b, e['f'])
        if k == 'un' and e['o'] in ('*', '&'):
            return self.shape(e['e'], s)
        if k == 'call' and e.get('ob') is not None and not e['a'] or k == 'call' and e.get('op') in ('*', '->'):
            b = self.shape(e['ob'] if e.get('ob') is not None else e['a'][0], s)
            m = method_of(e)
            return b and (b if m in ('operator*', 'operator->', 'get') and strip_targs(e['q']).startswith('std::') else ('()', b, m))
        return None

    def asks_param(self, a, b, s):
        w = s.facts.get(('of', a['d'], s.ver.get(a['d'], 0))) if a.get('k') == 'ref' and 'd' in a else None
        return w is None or w[0] == 'find' and w[1] in (None, ('v', b['d']))

    def searched(self, e, s):
        """the container, or the end, a search runs over"""
        m = method_of(e)
        if m not in LOOK:
            return None
        if e.get('ob') is not None:
            return self.shape(e['ob'], s)
        if len(e['a']) >= 2:
            y = strip(e['a'][1])
            if y.get('k') == 'call' and method_of(y) in ENDS:
                return self.shape(y['ob'] if y.get('ob') is not None else y['a'][0], s)
            if y.get('k') == 'ref' and 'd' in y:
                w = s.facts.get(('of', y['d'], s.ver.get(y['d'], 0)))
                return w[1] if w else None
        return None

    def note(self, d, e, s):
        v = s.ver.get(d, 0)
        for t in ('nul', 'of', 'look'):
            s.facts.pop((t, d, v), None)
        w = self.source(e, s)
        y = strip(e)
        if isinstance(y, dict):
            if y.get('k') == 'call' and self.kind_of(y['t']) == 'it':
                if method_of(y) in ENDS:
                    w = None
                    k = self.shape(y['ob'] if y.get('ob') is not None else y['a'][0], s) if y.get('ob') is not None or y['a'] else None
                    s.facts[('of', d, v)] = ('end', k)
                elif method_of(y) in LOOK:
                    s.facts[('of', d, v)] = ('find', self.searched(y, s))
            elif y.get('k') == 'ref' and 'd' in y:
                z = s.facts.get(('of', y['d'], s.ver.get(y['d'], 0)))
                if z is not None:
                    s.facts[('of', d, v)] = z
            if y.get('k') == 'null':
                s.facts[('v', d, v)] = False
        if w:
            s.facts[('nul', d, v)] = w
            s.facts[('look', d, v)] = True
            self.sources += 1
        # b = a: what is known of a is known of b
        k = self.ckey(y, s)
        if k is not None:
            t = s.facts.get(('nn', k), s.facts.get(k))
            if t is not None and k[0] != 'c':
                s.facts[('nn', ('v', d, v))] = t
        return w

    def declare(self, v, s):
        out = super().declare(v, s)
        if v.get('e') is not None and not v.get('static') and (self.holds(v['t']) or self.ptrref(v['t'])):
            for a in out:
                self.note(v['d'], v['e'], a)
        elif v.get('e') is not None and self.ispos(v['e']):
            for a in out:
                self.note(v['d'], v['e'], a)
        elif v.get('e') is not None and not v.get('static') and self.P.ty(v['t'])['s'].replace('const ', '') == 'bool':
            for a in out:
                self.alias(v['d'], v['e'], a)
        return out

    def alias(self, d, e, s):
        """a flag: what its truth tells"""
        for truth in (True, False):
            t = s.copy()
            if self.learn(e, t, truth):
                new = {k: v for k, v in t.facts.items() if s.facts.get(k) != v or k not in s.facts}
                if new:
                    s.facts[('flag', d, s.ver.get(d, 0), truth)] = new

    def ptrref(self, t):
        t = self.P.ty(t)
        return t['k'] in ('ref', 'rref') and self.kind_of(t['p']) in ('it', 'ptr')

    def x_asg(self, e, s):
        out = super().x_asg(e, s)
        d = self.vard(e['L'])
        if e['o'] == '=' and (self.kind_of(e['L']['t']) in ('it', 'ptr') or self.ispos(e['R'])):
            for a, v in out:
                if d is not None:
                    self.note(d, e['R'], a)
        return out

    # ---- what is asserted is a condition of the call
    def x_sizeof(self, e, s):
        c = e.get('e')
        if isinstance(c, dict) and c.get('k') == 'cond':
            return [(a, life.NOTHING) for a in self.branch(c['c'], [s])[0]]
        return [(s, life.NOTHING)]

    # ---- where it matters
    def x_mem(self, e, s):
        out = super().x_mem(e, s)
        if e.get('ar'):
            for a, v in out:
                self.need(e, e['b'], a, 'is read through')
        return out

    def x_un(self, e, s):
        out = super().x_un(e, s)
        if e['o'] == '*':
            for a, v in out:
                self.need(e, e['e'], a, 'is dereferenced')
        elif e['o'] == '&':
            d = self.vard(e['e'])
            if d is not None:
                for a, v in out:
                    a.ver[d] = a.ver.get(d, 0) + 1
        return out

    def x_idx(self, e, s):
        out = super().x_idx(e, s)
        if self.P.ty(e['b']['t'])['k'] == 'ptr':
            for a, v in out:
                self.need(e, e['b'], a, 'is read through')
        return out

    def method(self, e, q, ob, vs, s):
        cls, _, m = q.rpartition('::')
        if cls.startswith(life.ITERS) and m in ('operator*', 'operator->') or e.get('ar'):
            self.need(e, e['ob'], s, 'is dereferenced')
        if cls == 'std::basic_string' and m in SPOS and e['a'] and self.kind_of(e['a'][0]['t']) is None:
            self.position(e, e['a'][0], s)
        if m == 'erase' and cls in life.CONT and len(e['a']) == 1 and self.kind_of(e['a'][0]['t']) == 'it':
            self.need(e, e['a'][0], s, 'is erased')
        if cls == 'std::unique_ptr' and m in ('operator*', 'operator->'):
            y = strip(e['ob'])
            if y.get('k') != 'mem':
                self.need(e, e['ob'], s, 'is dereferenced')
            elif self.optional(y['f'], self.record(y['b'])):
                self.count('read through an owner that may be empty')
                k = self.ckey(y, s)
                t = s.facts.get(('nn', k), s.facts.get(k)) if k is not None else None
                if t is None and k is not None and k[0] == 'm' and k[1] == ('this',) and self.fn.get('acc') == 'private':
                    self.must.add(y['f'])
                elif t is not True:
                    self.complain(e, '%s|is dereferenced' % y['f'], '%s is dereferenced, but a constructor leaves it empty' % y['f'])
                    if k is not None:
                        s.facts[('nn', k)] = True
        if cls == 'std::unique_ptr' and m in ('operator=', 'reset', 'release', 'swap'):
            out = super().method(e, q, ob, vs, s)
            for a, v in out:
                self.owner_set(e, m, a)
            return out
        self.handed(e, s)
        if strip(e['ob']).get('k') == 'this' and not e.get('cst'):
            s.ver['own'] = s.ver.get('own', 0) + 1
        if cls.startswith(life.ITERS) and m == 'operator=' and e['a']:
            out = super().method(e, q, ob, vs, s)
            d = self.vard(e['ob'])
            if d is not None:
                for a, v in out:
                    self.note(d, e['a'][0], a)
            return out
        return super().method(e, q, ob, vs, s)

    def owner_set(self, e, m, s):
        y = strip(e['ob'])
        w = self.source(e['a'][0], s) if e['a'] else 'it was released or reset'
        if y.get('k') == 'mem' and strip(y['b']).get('k') == 'this':
            s.ver['tm', y['f']] = s.ver.get(('tm', y['f']), 0) + 1
        d = self.vard(e['ob'])
        if d is not None:
            s.ver[d] = s.ver.get(d, 0) + 1
            if e['a'] and m == 'operator=':
                self.note(d, e['a'][0], s)
        k = self.ckey(y, s)
        if k is not None and m != 'swap':
            if w is None:
                s.facts[('nn', k)] = True
            elif not e['a'] or strip(e['a'][0]).get('k') == 'null':
                s.facts[('nn', k)] = False
            else:
                s.facts.pop(('nn', k), None)

    def free(self, e, q, vs, s):
        self.handed(e, s)
        return super().free(e, q, vs, s)

    def handed(self, e, s):
        """what the called function reads through without asking"""
        if e.get('vt'):
            return
        for i in self.needs.get(e.get('f'), ()):
            if isinstance(i, str):
                if e.get('ob') is not None and strip(e['ob']).get('k') == 'this':
                    k = ('m', ('this',), i, (s.ver.get(('tm', i), 0), s.ver.get('own', 0)))
                    if s.facts.get(('nn', k), s.facts.get(k)) is not True:
                        if self.fn.get('acc') == 'private' and s.facts.get(('nn', k), s.facts.get(k)) is None:
                            self.must.add(i)
                        else:
                            self.complain(e, '%s|handed to %s' % (i, method_of(e)), '%s is read through by %s, but a constructor leaves it empty' % (
                                i, method_of(e)))
                continue
            if i < len(e['a']):
                self.count('handed to a function that reads through it')
                w = self.source(e['a'][i], s)
                if w:
                    y = strip(e['a'][i])
                    self.complain(e, '%s|handed to %s' % (self.name(y), method_of(e)), '%s is handed to %s, which reads through it, but %s' % (
                        self.name(y), method_of(e), w))
                y = strip(e['a'][i])
                if y.get('k') == 'ref' and y.get('d') in self.pindex and self.kind_of(y['t']) == 'ptr' and s.ver.get(y['d'], 0) == 0:
                    k = self.ckey(y, s)
                    if s.facts.get(('nn', k), s.facts.get(k)) is None:
                        self.must.add(self.pindex[y['d']])

    def ret(self, s, v, x):
        e = x.get('e')
        if e is not None and self.holds(e['t']) and self.fn is self.home:
            w = self.source(e, s)
            y = strip(e)
            if w is None and y.get('k') == 'call' and strip_targs(y.get('q') or '') == 'std::unique_ptr::get' and \
                    strip(y['ob']).get('k') == 'mem' and strip(strip(y['ob'])['b']).get('k') == 'this' and \
                    self.optional(strip(y['ob'])['f'], self.fn.get('cls')):
                w = 'its owner may be empty'
            if w and not (w == 'it is the end' and method_of(self.fn_as_call()) in ENDS):
                # on this path a parameter is absent: nothing for nothing
                self.maynull.add(frozenset(i for d, i in self.pindex.items() if self.holds(self.home['ps'][i]['t']) and
                                           self.gone(d, s)))
        return super().ret(s, v, x)

    def gone(self, d, s):
        k = ('v', d, 0)
        return s.ver.get(d, 0) == 0 and s.facts.get(('nn', k), s.facts.get(k)) is False

    def fn_as_call(self):
        return {'q': self.fn['q']}

    def record(self, b):
        t = self.P.ty(strip(b)['t'])
        if t['k'] in ('ptr', 'ref', 'rref'):
            t = self.P.ty(t['p'])
        return t['s'][6:] if t['s'].startswith('const ') else t['s']

    def optional(self, f, cls):
        """some constructor of the class leaves the owner empty"""
        memo = self.P.__dict__.setdefault('_optional', {})
        if (f, cls) not in memo:
            memo[f, cls] = any(self.leaves(g, f) for g in self.P.by_class(cls) if 'inits' in g and not g['ps'])
        return memo[f, cls]

    def leaves(self, g, f):
        for i in g['inits']:
            if i.get('f') == f:
                e = strip(i['e']) if i.get('e') is not None else None
                return e is None or e.get('k') in ('null', 'zero') or \
                    e.get('k') == 'ctor' and all(strip(a).get('k') == 'null' for a in e['a'])
        return False


def run(P, sums, n, needs, f, report=None):
    L = Nul(P, (sums, n, needs), f, report)
    L._names = {p['d']: p['n'] for p in f['ps']}
    L.run()
    return L


def program(P, sums):
    n, needs = {}, {}
    todo = [f for f in P.fns.values() if f.get('body') is not None]
    for r in range(5):
        ch = False
        for f in todo:
            L = run(P, sums, n, needs, f)
            if L.maynull != n.get(f['f'], set()) or L.must != needs.get(f['f'], set()):
                n[f['f']], needs[f['f']] = L.maynull, L.must
                ch = True
        if not ch:
            break
    return n, needs

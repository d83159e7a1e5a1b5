"""G01: what a call answers depends on its arguments: no state hidden between calls, none shared between threads."""
import re
from front import walk, loc, strip_targs

RULE = 'no-hidden-state'
AMBIENT = {'time', 'clock', 'rand', 'srand', 'random', 'drand48', 'getenv', 'setenv', 'putenv', 'setlocale', 'localtime',
           'gmtime', 'asctime', 'ctime', 'strtok', 'tmpnam', 'tempnam', 'getpid', 'gettimeofday', 'clock_gettime', 'mktime',
           'std::time', 'std::clock', 'std::rand', 'std::srand', 'std::getenv', 'std::setlocale', 'std::localtime', 'std::gmtime',
           'std::asctime', 'std::ctime', 'std::strtok', 'std::tmpnam', 'std::locale::global', 'std::random_device::operator()',
           'std::random_device::random_device', 'std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now',
           'std::chrono::_V2::high_resolution_clock::now', 'std::this_thread::get_id', 'pthread_self'}
# members of standard containers that answer a part of them
PARTS = {'operator[]', 'at', 'front', 'back', 'operator*', 'operator->', 'get', 'value', 'data', 'first', 'second'}
PLACES = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'equal_range', 'c_str',
          'size', 'empty', 'length', 'count', 'data'}
WRITERS = re.compile(r'^std::(__\w+::)*(sort|stable_sort|fill|fill_n|iota|reverse|rotate|remove|remove_if|unique|swap|iter_swap|'
                     r'replace|replace_if|generate|generate_n|partition|shuffle|random_shuffle|nth_element|partial_sort|'
                     r'swap_ranges|move|forward|exchange|make_heap|push_heap|pop_heap|sort_heap|getline)$')


def check(R, P):
    R.rule('Every variable of static storage (globals, static members, static and thread-local locals) that is not '
           'immutable is traced through all of its uses: after its initialisation it must not be assigned, stepped, moved '
           'from, changed by a member function, nor handed out where it could be. A static local may be initialised from '
           'constants only, never from what the first call happened to get.')
    R.rule('A variable of a class with a lock of its own may be handed out; then each member access to its state must be '
           'made while that lock is held.')
    R.rule('Const member functions may not write mutable members, and nothing may ask for the time, the environment, the '
           'thread, random numbers, or the order of addresses.')
    names(R, P)
    monitors(R, P)
    mutables(R, P)
    ambient(R, P)
    R.floor('variable of static storage', 60)
    R.floor('function without ambient input', 300)


def names(R, P):
    live, idx = {}, {}
    for u, g in P.gvars.items():
        if '/test/' in g['file'] or g['file'].startswith('ext/') or '/ext/' in g['file']:
            continue
        live[u] = g
        if g.get('slocal'):
            idx[u] = u
        else:
            idx.setdefault(g['q'], u)
    uses = {}
    for f in P.fns.values():
        roots = [f.get('body')] + [i.get('e') for i in f.get('inits') or []]
        for r in roots:
            find(r, [], f, idx, live, uses)
    for u, g in live.items():
        if 'e' in g:
            find(g['e'], [], None, idx, live, uses, skip=u)
    R.mon = set()
    for u, g in sorted(live.items(), key=lambda x: (x[1]['file'], x[1]['line'])):
        ok = True
        where = '%s:%s' % (g['file'], g['line'])
        t = P.ty(g['t'])
        if g.get('slocal') and 'e' in g and not g.get('cx'):
            d = depends(P, g['e'])
            if d:
                ok = False
                R.violate(where, RULE, 'static %s keeps what the first call got: its initial value depends on %s' % (g['q'], d),
                          'init|%s|%s' % (fnname(P, g), g['n']))
        if not g.get('cx') and frozen(P, g['t']):
            for par, f in uses.get(u, []):
                c = next((p for p in par if isinstance(p, dict) and p.get('k') == 'cast' and p.get('ck') == 'const'), None)
                if c and f and use(P, par, f, g) == 'escape':
                    ok = False
                    R.violate(loc(f, par[-1]), RULE, '%s: constant %s is made changeable' % (f['q'], g['n']),
                              'static|%s|%s' % (strip_targs(f['q']), g['n']))
        if not g.get('cx') and not frozen(P, g['t']):
            m = monitor_class(P, t)
            for par, f in uses.get(u, []):
                if g.get('slocal') and not par:
                    continue
                w = use(P, par, f, g)
                if w is None or w == 'read':
                    continue
                if w == 'escape' and m:
                    R.mon.add(m)
                    continue
                if w in ('escape', 'write') and f and guarded(P, f):
                    R.ob('state under its lock', '%s %s' % (loc(f, par[-1]), f['q']))
                    continue
                line = next((p['l'] for p in reversed(par) if isinstance(p, dict) and p.get('l')), None)
                at = '%s:%s' % (f['file'], line or f['line']) if f else where
                fn = f['q'] if f else g['q']
                if w[0] == '?':
                    R.undecided(at, '%s: use of static %s: %s' % (fn, g['n'], w[1:]))
                    ok = None if ok else ok
                    continue
                ok = False
                R.violate(at, RULE, '%s: static %s %s' % (fn, g['n'], {'write': 'is changed', 'escape': 'is handed out to be changed'}.get(w, w)),
                          'static|%s|%s' % (strip_targs(fn), g['n']))
            if m and g.get('slocal'):
                R.mon.add(m)
        R.ob('variable of static storage', '%s %s' % (where, g['q']), ok is True)


def fnname(P, g):
    f = P.fns.get(g.get('fn'))
    return strip_targs(f['q']) if f else ''


def find(x, par, f, idx, live, uses, skip=None):
    if isinstance(x, dict):
        if x.get('k') == 'ref' and x.get('dk') in ('slocal', 'glob'):
            u = idx.get(x.get('d')) or idx.get(x.get('qn'))
            if u and u != skip:
                uses.setdefault(u, []).append((par + [x], f))
        for k, y in x.items():
            if isinstance(y, (dict, list)):
                find(y, par + [x], f, idx, live, uses, skip)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (dict, list)):
                find(y, par, f, idx, live, uses, skip)


def depends(P, e):
    inner = set()
    for n in walk(e):
        if n.get('k') == 'lam':
            for m in walk(n.get('caps')):
                if m.get('k') == 'ref' and m.get('dk') in ('parm', 'var'):
                    return m['n']
            inner |= {id(m) for m in walk(n.get('body'))}
    for n in walk(e):
        if id(n) in inner:
            continue
        if n.get('k') == 'ref' and n.get('dk') in ('parm', 'var'):
            return n['n']
        if n.get('k') == 'this':
            return 'this'
    return None


def frozen(P, tid):
    """const all the way: nothing reachable through it can be changed"""
    t = P.ty(tid)
    while t['k'] == 'arr':
        t = P.ty(t['p'])
    if t['k'] in ('ref', 'rref'):
        return P.ty(t['p'])['s'].startswith('const ')
    if not (t['s'].startswith('const ') or t['s'].endswith('const')):
        return False
    if t['k'] == 'ptr':
        p = P.ty(t['p'])
        return p['s'].startswith('const ') or p['k'] == 'fn' or '(' in p['s']
    if re.search(r'(unique_ptr|shared_ptr|reference_wrapper)<(?!const )', t['s']):
        return False
    return True


def monitor_class(P, t):
    q = t['s'].replace('const ', '')
    r = P.recs.get(q)
    if r and any('mutex' in P.ty(f['t'])['s'] for f in r['fields']):
        return q
    return None


def const_target(P, tid):
    """a type through which nothing can be changed: a value, or a reference or pointer to const"""
    t = P.ty(tid)
    if t['k'] in ('ref', 'rref', 'ptr'):
        return P.ty(t['p'])['s'].startswith('const ')
    return True


def use(P, par, f, g):
    """'read', 'write', 'escape' or '?...': what the expression around a reference does to the variable"""
    i = len(par) - 1
    x = par[i]
    t = P.ty(g['t'])
    is_ptr = t['k'] == 'ptr'
    arr = t['k'] == 'arr'
    part = not is_ptr or True
    mode = 'lv'                     # lv: the variable or a part of it; ptr: its address or a place in it
    if arr:
        mode = 'lv'
    while i > 0:
        p = par[i - 1]
        if not isinstance(p, dict):
            i -= 1
            continue
        k = p.get('k') or p.get('s')
        if p.get('k') == 'asg':
            if p.get('L') is x:
                return 'write' if mode == 'lv' or k == 'asg' and mode == 'lv' else 'read'
            if mode == 'ptr' or arr:
                return 'read' if const_target(P, p['L']['t']) else 'escape'
            return 'read'
        if p.get('k') == 'un':
            o = p['o']
            if o in ('++', '--', 'p++', 'p--'):
                return 'write' if mode == 'lv' else 'read'
            if o == '&':
                mode = 'ptr'
            elif o == '*':
                mode = 'lv'
            else:
                return 'read'
            i -= 1
            x = p
            continue
        if p.get('k') in ('mem',):
            i -= 1
            x = p
            mode = 'lv'
            continue
        if p.get('k') == 'idx':
            if p.get('b') is not x:
                return 'read'
            mode = 'lv'
            i -= 1
            x = p
            continue
        if p.get('k') == 'cast':
            if p.get('ck') == 'const':
                return 'escape'
            if p.get('ck') in ('c', 'static', 'func') and P.ty(p['t'])['s'] == 'void':
                return 'read'
            i -= 1
            x = p
            continue
        if p.get('k') == 'cond':
            if p.get('c') is x and p.get('T') is not x:
                return 'read'
            i -= 1
            x = p
            continue
        if p.get('k') == 'bin':
            if p['o'] == ',' and p.get('R') is x or p['o'] in ('+', '-') and (mode == 'ptr' or arr):
                if arr:
                    mode = 'ptr'
                i -= 1
                x = p
                continue
            return 'read'
        if p.get('k') in ('call', 'ctor'):
            q = strip_targs(p.get('q') or '')
            n = q.rsplit('::', 1)[-1]
            if p.get('ob') is x:
                if mode == 'ptr' and not p.get('ar'):
                    return '?member call on an address'
                if p.get('cst') or p.get('stc'):
                    return 'read'
                if n == 'operator[]' and re.match(r'std::(unordered_)?map::', q):
                    return 'write'              # makes the entry that is not there
                if q.startswith('std::') and n in PARTS:
                    mode = 'lv'
                    i -= 1
                    x = p
                    continue
                if q.startswith('std::') and n in PLACES:
                    mode = 'ptr'
                    i -= 1
                    x = p
                    continue
                if n.startswith('operator') and n[8:] in ('==', '!=', '<', '<=', '>', '>=', ' bool', '()') or p.get('cvn'):
                    return 'read' if n != 'operator()' else 'write'
                return 'write'
            if p.get('ce') is x:
                return 'read'
            a = p.get('a') or []
            j = next((j for j, y in enumerate(a) if y is x), None)
            if j is None:
                return '?'
            pk = p.get('pk', '')
            c = pk[j] if j < len(pk) else 'v'
            if q in ('std::move', 'std::forward'):
                i -= 1
                x = p
                mode = 'moved'
                continue
            if mode == 'moved':
                return 'write' if c in 'xv' and not (p.get('k') == 'ctor' and p.get('ck') == 'copy') else 'read'
            if mode == 'ptr' or arr:
                if c in 'qc' or p.get('k') == 'ctor' and q.startswith('std::'):
                    return 'read'
                if q.startswith('std::'):
                    return 'write' if WRITERS.match(q) else 'read'
                if c == 'v' and const_target(P, x['t']):
                    return 'read'
                if c == 'v' and not q.startswith('std::') and P.ty(x['t'])['k'] != 'ptr' and 'iterator' not in P.ty(x['t'])['s']:
                    return 'read'
                return 'escape'
            if c in 'rx':
                if c == 'x' and not x.get('lv'):
                    return 'read'
                if q.startswith('std::') and not WRITERS.match(q) and n in ('tie', 'ref', 'begin', 'end', 'size', 'distance'):
                    return 'read'
                if x.get('t') is not None and P.ty(x['t'])['s'].startswith('const '):
                    return 'read'
                return 'write'
            if is_ptr and mode == 'lv' and par[-1] is x:
                return 'read' if c in 'qv' and const_pointee(P, g['t']) else ('escape' if c == 'p' else 'read')
            return 'read'
        s = p.get('s')
        if s == 'ret':
            rt = f.get('ret') if f else None
            if rt is None:
                return '?returned'
            r = P.ty(rt)
            if r['k'] in ('ref', 'rref'):
                return 'read' if const_target(P, rt) else 'escape'
            if mode == 'ptr' or arr:
                return 'read' if const_target(P, rt) and r['k'] == 'ptr' or 'const_iterator' in r['s'] else 'escape'
            if is_ptr and par[-1] is x:
                return 'read' if const_pointee(P, g['t']) else 'escape'
            return 'read'
        if s in ('decl', 'if', 'for', 'while', 'switch', 'do', 'rfor') or ('d' in p and 'e' in p and 't' in p and 'k' not in p):
            if 'd' in p and 't' in p and 'k' not in p:
                v = P.ty(p['t'])
                if v['k'] in ('ref', 'rref'):
                    return 'read' if const_target(P, p['t']) else ('read' if not x.get('lv') else 'escape')
                if mode == 'ptr' or arr:
                    if v['k'] == 'ptr':
                        return 'read' if const_target(P, p['t']) else 'escape'
                    return 'read' if 'const' in v['s'] or 'iterator' not in v['s'] else '?kept as a place in it'
                return 'read'
            if s == 'rfor' and p.get('r') is x:
                return 'read' if P.ty(p['v']['t'])['k'] not in ('ref', 'rref') or const_target(P, p['v']['t']) else 'escape'
            return 'read'
        if p.get('k') in ('throw', 'sizeof', 'typeid'):
            return 'read'
        if p.get('k') in ('lam',) or 'caps' in p:
            return 'read'
        if p.get('k') == 'init':
            return 'read' if mode == 'lv' else '?listed'
        if p.get('s') in ('exp', 'blk', 'case', 'default', 'try'):
            return 'read'
        if 'cap' in p or 'ref' in p:
            return 'read'
        i -= 1
        x = p
    if f is not None:
        for j in f.get('inits') or []:
            if j.get('e') is x:
                t = j.get('t')
                return 'read'
    return 'read'


def const_pointee(P, tid):
    t = P.ty(tid)
    return t['k'] == 'ptr' and P.ty(t['p'])['s'].startswith('const ')


# ---- classes with a lock

LOCKS = ('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<')


def monitors(R, P):
    for cls in sorted(R.mon):
        r = P.recs[cls]
        mtx = [f['n'] for f in r['fields'] if 'mutex' in P.ty(f['t'])['s']]
        state = [f['n'] for f in r['fields'] if f['n'] not in mtx]
        giver = {f['q'] for f in P.by_class(cls) if f.get('body') is not None and gives(f, mtx)}
        open_ = {}
        for f in P.by_class(cls):
            if f.get('body') is None or f.get('ctor') or f['n'].startswith('~') or f['n'] == cls.rsplit('::', 1)[-1]:
                continue
            touched = [n for n in walk(f['body']) if n.get('k') == 'mem' and n['f'] in state and n.get('fq', '').startswith(cls + '::')]
            if not touched:
                continue
            if locked(P, f, mtx, giver):
                R.ob('state under its lock', '%s %s' % (loc(f), f['q']))
                continue
            open_[f['q']] = f
        for f in P.fns.values():
            if f.get('body') is None:
                continue
            for n in list(walk(f['body'])) + [m for i in f.get('inits') or [] for m in walk(i.get('e'))]:
                hit = n.get('q') in open_ if n.get('k') == 'call' else \
                    n.get('k') == 'mem' and n['f'] in state and n.get('fq', '').startswith(cls + '::') and f.get('cls') != cls
                if not hit or f['q'] in open_:
                    continue
                ok = locked(P, f, mtx, giver) or holder(P, f, giver)
                R.ob('state under its lock', '%s %s' % (loc(f, n), f['q']), ok)
                if not ok:
                    R.violate(loc(f, n), RULE, '%s uses the state of %s without holding its lock' % (f['q'], cls),
                              'lock|%s' % strip_targs(f['q']))


def gives(f, mtx):
    b = f['body']
    st = b.get('b') or []
    return len(st) == 1 and st[0].get('s') == 'ret' and (st[0].get('e') or {}).get('k') == 'mem' and st[0]['e']['f'] in mtx


def lock_expr(e, mtx, giver):
    for n in walk(e):
        if n.get('k') == 'mem' and n['f'] in mtx or n.get('k') == 'call' and n.get('q') in giver:
            return True
    return False


def guarded(P, f):
    """a member function that works under the lock of its class, and what it hands out stays in the class"""
    cls = f.get('cls')
    r = P.recs.get(cls)
    if not r or f.get('body') is None:
        return False
    mtx = [x['n'] for x in r['fields'] if 'mutex' in P.ty(x['t'])['s']]
    return bool(mtx) and locked(P, f, mtx, set()) and P.ty(f['ret'])['s'] == 'void'


def locked(P, f, mtx, giver):
    """a lock is taken in the outermost block of the body and kept to its end; nothing before it touches the class"""
    cls = f.get('cls')
    lock = None
    for s in f['body'].get('b') or []:
        if s.get('s') == 'decl':
            for v in s['v']:
                if P.ty(v['t'])['s'].replace('const ', '').startswith(LOCKS) and lock_expr(v.get('e'), mtx, giver) and \
                        'defer' not in str(v.get('e')):
                    lock = v
            if lock:
                break
        for n in walk(s):
            if n.get('k') in ('call', 'mem', 'this', 'ref') and (n.get('k') == 'this' or n.get('k') == 'call' and n.get('ob') or
                                                                  strip_targs(n.get('fq') or '').startswith('%s::' % cls)):
                return False
    if not lock:
        return False
    for n in walk(f['body']):
        if n.get('k') == 'call' and strip_targs(n.get('q') or '').endswith(('::unlock', '::release', '::swap')) and \
                any(m.get('d') == lock['d'] for m in walk(n.get('ob'))):
            return False
    return True


def holder(P, f, giver):
    """a member of a class that holds the lock from its construction to its end"""
    cls = f.get('cls')
    r = P.recs.get(cls)
    if not r:
        return False
    ls = [x['n'] for x in r['fields'] if P.ty(x['t'])['s'].startswith(LOCKS)]
    if not ls:
        return False
    for g in P.by_class(cls):
        for n in walk(g.get('body') or {}):
            if n.get('k') == 'call' and strip_targs(n.get('q') or '').endswith(('::unlock', '::release', '::swap', '::operator=')) and \
                    any(m.get('k') == 'mem' and m['f'] in ls for m in walk(n.get('ob'))):
                return False
    ctors = [c for c in P.by_class(cls) if c.get('inits') is not None and (c.get('ctor') or c['n'] == cls.rsplit('::', 1)[-1])
             and c.get('body') is not None]
    if not ctors:
        return False
    for c in ctors:
        if not any(i.get('f') in ls or i.get('n') in ls or i.get('m') in ls for i in c['inits']
                   if lock_expr(i.get('e'), (), giver)):
            return False
    # members before the lock must not have been used in the constructor's own initialisers
    return True


def mutables(R, P):
    mut = {}
    for q, r in P.recs.items():
        for f in r['fields']:
            if f.get('mut') and 'mutex' not in P.ty(f['t'])['s'] and not q.startswith('std::'):
                mut[strip_targs(q) + '::' + f['n']] = (q, f)
    for f in P.fns.values():
        if f.get('body') is None:
            continue
        if mut and f.get('const'):
            pass
        if not mut:
            break
        scan(f['body'], [], f, mut, R, P)
    R.ob('no mutable members', '%d mutable members besides locks' % len(mut), True)


def scan(x, par, f, mut, R, P):
    if isinstance(x, dict):
        if x.get('k') == 'mem':
            m = mut.get(strip_targs(x.get('fq', '')))
            if m:
                w = use(P, par + [x], f, {'t': m[1]['t'], 'n': m[1]['n']})
                if w in ('write', 'escape'):
                    cst = f.get('cst') or f.get('const')
                    if cst:
                        R.violate(loc(f, x), RULE, '%s changes %s of an object it may only read' % (f['q'], m[1]['n']),
                                  'mutable|%s|%s' % (strip_targs(f['q']), m[1]['n']))
        for y in x.values():
            if isinstance(y, (dict, list)):
                scan(y, par + [x], f, mut, R, P)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (dict, list)):
                scan(y, par, f, mut, R, P)


def ambient(R, P):
    """no function asks for something besides its arguments"""
    locks = {P.recs[c]['q'].rsplit('::', 1)[0] for c in R.mon}
    for f in P.fns.values():
        if f.get('body') is None or '/test/' in f['file']:
            continue
        ok = True
        for n in walk(f['body']):
            q = strip_targs(n.get('q') or '') if n.get('k') in ('call', 'ctor') else ''
            if q in AMBIENT:
                if q == 'std::this_thread::get_id' and any(f['q'].startswith(l + '::') for l in locks):
                    continue                        # the log says which thread wrote a line
                ok = False
                R.violate(loc(f, n), RULE, '%s asks %s' % (f['q'], q), 'ambient|%s|%s' % (strip_targs(f['q']), q))
            if n.get('s') == 'rfor' and by_address(P, n['r'].get('t')):
                ok = False
                R.violate(loc(f, n), RULE, '%s walks a container in the order of addresses' % f['q'], 'order|' + strip_targs(f['q']))
            if n.get('k') == 'call' and q.startswith('std::') and q.endswith(('::begin', '::cbegin')) and n.get('ob') and \
                    by_address(P, n['ob'].get('t')):
                ok = False
                R.violate(loc(f, n), RULE, '%s walks a container in the order of addresses' % f['q'], 'order|' + strip_targs(f['q']))
        if R is not None:
            R.ob('function without ambient input', '%s %s' % (loc(f), f['q'][:80]), ok)


def by_address(P, tid):
    if tid is None:
        return False
    s = P.ty(tid)['s'].replace('const ', '')
    while s.endswith(('&', ' ')):
        s = s[:-1]
    m = re.match(r'std::(unordered_)?(multi)?(map|set)<(.*)', s)
    if not m:
        return False
    depth = 0
    for i, c in enumerate(m.group(4)):
        depth += c == '<'
        depth -= c == '>'
        if (c == ',' and depth == 0) or depth < 0:
            k = m.group(4)[:i].strip()
            return k.endswith('*') or bool(m.group(1)) and True
    return False

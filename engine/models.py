"""Meaning of the standard library for the dataflow (absint.py)."""
from absint import (C, NULL, MOVED, EMPTY, TRUE, FALSE, read, write, at, add, size_of, mk_eq, mk_lt, mk_not,
                    mentions, assume, decide, drop_below)
from front import strip_targs

SEQ = ('std::vector', 'std::basic_string', 'std::array', 'std::deque', 'std::list', 'std::map', 'std::set',
       'std::unordered_map', 'std::initializer_list', 'std::multimap', 'std::basic_string_view', 'boost::container::vector')
OWN = ('std::unique_ptr', 'std::shared_ptr')
ITER = ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator',
        'std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator', 'std::reverse_iterator',
        'std::__detail::_Node_iterator', 'boost::container::vec_iterator')
ITCMP = ('__gnu_cxx::operator', 'std::operator', 'boost::container::operator')


def V(s, v):
    return [(s, ('V', v))]


def L(s, l):
    return [(s, ('L', l))]


def split(b):
    cls, _, m = b.rpartition('::')
    return cls, m


def is_it(v):
    return v[0] in ('it', 'rit')


def elem_loc(v):
    if v[0] == 'it':
        return ('elem', v[1], v[2])
    if v[0] == 'rit':
        return ('elem', v[1], add(v[2], -1))
    return at(v)


def ctor(I, e, s, fr, loc, args):
    b = strip_targs(e['q'])
    cls, m = split(b)
    vals = [I.val(s, a) for a in args]
    if cls in OWN:
        if not args:
            write(s, loc, NULL)
            return [s]
        v = vals[0]
        if args[0][0] == 'L' and e['pk'][0] == 'x' and not (e['a'] and I.P.ty(e['a'][0]['t'])['k'] == 'ptr'):
            write(s, args[0][1], NULL)
        write(s, loc, v)
        s.emit('own', loc, v, e.get('l'))
        return [s]
    if cls == 'std::basic_string':
        if not args or all(x[0] == 'ctor' and x[1] == 'std::allocator' for x in vals):
            write(s, loc, ('s', ''))
            return [s]
        if e['ck'] in ('copy', 'move') or (len(args) <= 2 and e['pk'][:1] in ('q', 'c', 'x')):
            v = vals[0]
            if e['ck'] == 'move' and args[0][0] == 'L':
                write(s, args[0][1], MOVED)
                s.emit('moved', args[0][1], e.get('l'))
            write(s, loc, v)
            return [s]
        if len(vals) >= 2 and vals[0][0] == 'c' and vals[1][0] == 'c':
            write(s, loc, ('s', chr(vals[1][1] & 255) * vals[0][1]))
            return [s]
        write(s, loc, ('mkstr',) + tuple(vals))
        return [s]
    if cls in SEQ or cls in ('std::pair', 'std::tuple'):
        if e['ck'] in ('copy', 'move') and args and args[0][0] == 'L':
            v = read(s, args[0][1])
            write(s, loc, v)
            if e['ck'] == 'move':
                write(s, args[0][1], MOVED)
                s.emit('moved', args[0][1], e.get('l'))
            s.emit('copyctor' if e['ck'] == 'copy' else 'movector', loc, args[0][1], b, e.get('l'))
            return [s]
        if cls == 'std::pair':
            if len(vals) == 2:
                for a, k in zip(args, e['pk']):
                    if a[0] == 'L' and k == 'x':
                        consume(I, s, a[1], read(s, a[1]))
                write(s, loc, ('rec', ('lit',), ((('fld', 'first'), vals[0]), (('fld', 'second'), vals[1]))))
                return [s]
            if len(vals) == 1:
                v = vals[0]
                write(s, loc, v)
                return [s]
            return None
        if not args and cls in SEQ and cls != 'std::array':
            write(s, loc, EMPTY)
            return [s]
        if len(vals) >= 2 and all(is_it(v) for v in vals[:2]):
            write(s, loc, ('fromrange', vals[0], vals[1], read(s, vals[0][1])))
            return [s]
        return None
    if cls in ITER and len(vals) == 1:
        v = vals[0]
        if cls == 'std::reverse_iterator' and v[0] == 'it':
            v = ('rit', v[1], v[2])
        write(s, loc, v)
        return [s]
    if cls == 'std::function':
        if vals:
            write(s, loc, vals[0])
            return [s]
    if cls == 'std::allocator':
        write(s, loc, ('ctor', 'std::allocator'))
        return [s]
    return None


def consume(I, s, l, v):
    write(s, l, NULL if True else MOVED)
    s.emit('moved', l, None)


def moved_value(I, s, a, owner=True):
    """value of an rvalue argument; its source is left moved-from"""
    if a[0] == 'L':
        v = read(s, a[1])
        write(s, a[1], NULL)
        return v
    return a[1]


def contents(s, loc):
    return read(s, loc)


def call(I, e, b, s, fr, ob, args):
    cls, m = split(b)
    line = e.get('l')
    pk = e.get('pk', '')

    def val(i):
        return I.val(s, args[i])

    # ---- refract interface accessors --------------------------------------

    # ---- value category helpers --------------------------------------------
    if b in ('std::move', 'std::forward', 'std::as_const', 'std::addressof') and len(args) == 1:
        if b == 'std::addressof':
            return V(s, ('addr', I.as_loc(s, args[0])))
        return [(s, args[0])]
    if b == 'std::swap' and len(args) == 2:
        l1, l2 = I.as_loc(s, args[0]), I.as_loc(s, args[1])
        v1, v2 = read(s, l1), read(s, l2)
        write(s, l1, v2)
        write(s, l2, v1)
        s.emit('swap', l1, l2, line)
        return V(s, ('void',))
    if b == 'std::make_pair' and len(args) == 2:
        vs = []
        for a, k in zip(args, pk):
            if a[0] == 'L':
                vs.append(read(s, a[1]))
            else:
                vs.append(a[1])
        return V(s, ('rec', ('lit',), ((('fld', 'first'), vs[0]), (('fld', 'second'), vs[1]))))
    if b in ('std::make_unique', 'std::make_shared'):
        I.nu += 1
        p = ('new', ('heap', line, I.nu))
        write(s, at(p), ('ctor', e.get('ta', ['?'])[0]) + tuple(I.val(s, a) for a in args))
        s.emit('new', p, e.get('ta', ['?'])[0], None, line, fr.fn)
        return V(s, p)

    # ---- assignment of a library value of the same type -------------------------
    if m == 'operator=' and cls in ('std::variant', 'std::optional', 'std::function', 'std::tuple', 'std::pair') and len(args) == 1 \
            and ob is not None:
        t = I.P.ty(e['a'][-1]['t'])
        while t['k'] in ('ref', 'rref'):
            t = I.P.ty(t['p'])
        if t['s'].replace('const ', '').startswith(cls + '<'):
            w = val(0)
            if args[0][0] == 'L' and pk[:1] == 'x':
                write(s, args[0][1], MOVED)
            write(s, ob, w)
            s.emit('store', ob, w, line)
            return L(s, ob)

    # ---- owning pointers -------------------------------------------------------
    if cls in OWN or cls in ('std::__shared_ptr', 'std::__shared_ptr_access'):
        if m == 'get':
            return V(s, read(s, ob))
        if m in ('operator*', 'operator->'):
            v = read(s, ob)
            if m == 'operator->':
                return V(s, v)
            return L(s, I.deref(s, v, e, fr))
        if m == 'operator bool':
            return V(s, truth(read(s, ob)))
        if m == 'release':
            v = read(s, ob)
            write(s, ob, NULL)
            s.emit('release', v, line)
            return V(s, v)
        if m == 'reset':
            v = val(0) if args else NULL
            old = read(s, ob)
            s.emit('drop', old, line)
            write(s, ob, v)
            return V(s, ('void',))
        if m == 'operator=':
            a = args[0]
            v = I.val(s, a)
            if a[0] == 'L' and pk[:1] == 'x' and v[0] != 'null' and cls == 'std::unique_ptr':
                write(s, a[1], NULL)
            s.emit('drop', read(s, ob), line)
            write(s, ob, v)
            s.emit('store', ob, v, line)
            return L(s, ob)
        if m == 'swap':
            l2 = I.as_loc(s, args[0])
            v1, v2 = read(s, ob), read(s, l2)
            write(s, ob, v2)
            write(s, l2, v1)
            return V(s, ('void',))

    # ---- iterators ------------------------------------------------------------------
    if cls in ITER:
        v = read(s, ob) if ob is not None else None
        if v is not None:
            if m == 'operator*' or m == 'operator->':
                if I.on_deref:
                    I.on_deref(s, v, e, fr)
                l = elem_loc(v)
                if m == 'operator->':
                    return V(s, ('addr', l))
                return L(s, l)
            if m in ('operator++', 'operator--'):
                d = 1 if m.endswith('++') else -1
                if v[0] == 'rit':
                    new = ('rit', v[1], add(v[2], -d))
                else:
                    new = I.shift(v, d)
                write(s, ob, new)
                return V(s, v) if args else L(s, ob)
            if m == 'operator[]' and v[0] == 'it':
                pos = I.sum(v[2], val(0))
                if I.on_elem:
                    I.on_elem(s, v[1], pos, e, fr)
                return L(s, ('elem', v[1], pos))
            if m in ('operator+', 'operator-', 'operator+=', 'operator-='):
                w = val(0)
                new = I.binop(m[8:9], v, w)
                if m.endswith('='):
                    write(s, ob, new)
                    return L(s, ob)
                return V(s, new)
            if m == 'operator=':
                write(s, ob, val(0))
                return L(s, ob)
            if m == 'base':
                return V(s, v)
    if m in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator-') \
            and (cls in ('__gnu_cxx', 'std', 'boost::container') or cls in ITER or cls in OWN):
        if ob is None and len(args) == 2:
            x, y = val(0), val(1)
        elif ob is not None and len(args) == 1:
            x, y = read(s, ob), val(0)
        else:
            return None
        if cls == 'std' and m in ('operator==', 'operator!=') and (x[0] == 'rec' or y[0] == 'rec'):
            pass
        return V(s, I.binop(m[8:], x, y))
    if cls == 'std' and m == 'operator+' and len(args) == 2:
        x, y = val(0), val(1)
        if x[0] == 's' and y[0] == 's':
            return V(s, ('s', x[1] + y[1]))
        return V(s, ('cat', x, y))
    if b in ('std::next', 'std::prev'):
        v = val(0)
        k = val(1) if len(args) > 1 else C(1)
        return V(s, I.binop('+' if b == 'std::next' else '-', v, k))
    if b == 'std::advance':
        l = I.as_loc(s, args[0])
        write(s, l, I.binop('+', read(s, l), val(1)))
        return V(s, ('void',))
    if b == 'std::distance':
        return V(s, I.binop('-', val(1), val(0)))
    if b in ('std::begin', 'std::end', 'std::cbegin', 'std::cend') and args:
        l = I.as_loc(s, args[0])
        return V(s, ('it', l, C(0) if b.endswith('begin') else size_of(contents(s, l))))
    if b in ('std::size', 'std::empty') and args:
        v = val(0)
        return V(s, size_of(v) if b == 'std::size' else mk_eq(size_of(v), C(0)))

    # ---- containers ----------------------------------------------------------------------
    if cls in SEQ:
        return seq(I, e, cls, m, s, fr, ob, args, line)
    if cls == 'std::function' and m == 'operator()':
        return I.apply(read(s, ob), s, fr, args, e)
    if cls == 'std::function' and m == 'operator bool':
        return V(s, truth(read(s, ob)))
    if b.startswith('(lambda') and m == 'operator()':
        v = read(s, ob)
        if v[0] == 'lam':
            return I.apply(v, s, fr, args, e)
        return None

    if cls == 'std' or cls == '':
        r = algorithm(I, e, m, s, fr, args, line)
        if r is not None:
            return r
    if b == 'std::operator<<' or (cls in ('std::basic_ostream', 'std::ostream') and m == 'operator<<'):
        if ob is not None:
            st, v = ob, val(0)
        else:
            st, v = I.as_loc(s, args[0]), val(1)
        s.emit('out', st, v, line, fr.fn, e['a'][-1] if e.get('a') else None)
        return L(s, st)
    if b == 'std::back_inserter':
        return V(s, ('backins', I.as_loc(s, args[0])))
    if b == 'std::get' and len(args) == 1:
        ta = e.get('ta', [])
        if ta and ta[0] in ('0', '1'):
            return L(s, ('fld', I.as_loc(s, args[0]), 'first' if ta[0] == '0' else 'second'))
    if cls in ('std::basic_stringstream', 'std::basic_ostringstream') and m == 'str' and not args:
        return V(s, ('strof', ob, len(s.ev)))
    if cls == 'std::numeric_limits' and 'cv' in e:
        return V(s, C(int(e.get('cvs', e['cv']))))
    return None


def truth(v):
    if v[0] in ('eq', 'lt', 'not', 'T', 'c'):
        return v
    if v == NULL:
        return FALSE
    return ('T', v)


def seq(I, e, cls, m, s, fr, ob, args, line):
    vals = [I.val(s, a) for a in args]
    v = contents(s, ob) if ob is not None else None
    if m in ('begin', 'cbegin'):
        return V(s, ('it', ob, C(0)))
    if m in ('end', 'cend'):
        return V(s, ('it', ob, size_of(v)))
    if m in ('rbegin', 'crbegin'):
        return V(s, ('rit', ob, size_of(v)))
    if m in ('rend', 'crend'):
        return V(s, ('rit', ob, C(0)))
    if m in ('size', 'length'):
        return V(s, size_of(v))
    if m == 'empty':
        return V(s, mk_eq(size_of(v), C(0)))
    if cls == 'std::map' or cls == 'std::set' or cls.endswith('map'):
        if m == 'find':
            return V(s, ('it', ob, ('find', v, vals[0])))
        if m == 'operator[]':
            s.emit('mapidx', ob, vals[0], line)
            return L(s, ('fld', ('elem', ob, ('find', v, vals[0])), 'second'))
        if m in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            s.emit('insert', ob, tuple(vals), line, fr.fn, m)
            I.nu += 1
            r = ('call', cls + '::' + m, v) + tuple(vals)
            write(s, ob, ('mapins', v, tuple(vals), m))
            return V(s, ('rec', r, ((('fld', 'first'), ('it', ob, ('find', v, vals[0]))),)))
        if m == 'erase':
            s.emit('erase', ob, tuple(vals), line, fr.fn)
            write(s, ob, ('erased', v, tuple(vals)))
            return V(s, ('call', cls + '::erase', v) + tuple(vals))
        if m == 'clear':
            s.emit('clear', ob, line)
            write(s, ob, EMPTY)
            return V(s, ('void',))
        if m in ('count', 'contains'):
            return V(s, ('not', mk_eq(('find', v, vals[0]), size_of(v))))
        return None
    if m in ('operator[]', 'at'):
        if I.on_elem and m != 'at':
            I.on_elem(s, ob, vals[0], e, fr)
        return L(s, ('elem', ob, vals[0]))
    if m == 'front':
        if I.on_elem:
            I.on_elem(s, ob, C(0), e, fr)
        return L(s, ('elem', ob, C(0)))
    if m == 'back':
        i = add(size_of(v), -1)
        if I.on_elem:
            I.on_elem(s, ob, i, e, fr)
        return L(s, ('elem', ob, i))
    if m in ('push_back', 'emplace_back'):
        if len(vals) == 2 and m == 'emplace_back':
            x = ('rec', ('lit',), ((('fld', 'first'), vals[0]), (('fld', 'second'), vals[1])))
        elif len(vals) == 1:
            x = vals[0]
        else:
            x = ('agg',) + tuple(vals)
        for a, k in zip(args, e.get('pk', '')):
            if a[0] == 'L' and k == 'x':
                write(s, a[1], NULL)
        write(s, ob, ('push', v, x))
        s.emit('push', ob, x, line, fr.fn)
        if e.get('lv'):
            return L(s, ('elem', ob, size_of(v)))
        return V(s, ('void',))
    if m == 'pop_back':
        s.emit('pop', ob, line, fr.fn)
        if v[0] == 'push':
            write(s, ob, v[1])
        else:
            write(s, ob, ('popped', v))
        return V(s, ('void',))
    if m == 'insert' and cls != 'std::basic_string':
        if len(args) >= 2 and args[1][0] == 'L' and e.get('pk', '')[1:2] == 'x':
            write(s, args[1][1], NULL)
        x = vals[1] if len(vals) > 1 else ('void',)
        if len(vals) == 2 and vals[0] == ('it', ob, size_of(v)):
            write(s, ob, ('push', v, x))
            s.emit('push', ob, x, line, fr.fn)
            return V(s, ('it', ob, size_of(v)))
        write(s, ob, ('inserted', v, tuple(vals)))
        s.emit('insert', ob, tuple(vals), line, fr.fn, m)
        return V(s, vals[0] if vals and is_it(vals[0]) else ('call', 'insert', v) + tuple(vals))
    if m == 'erase':
        s.emit('erase', ob, tuple(vals), line, fr.fn)
        write(s, ob, ('erased', v, tuple(vals)))
        return V(s, vals[0] if vals and is_it(vals[0]) else ('call', 'erase', v) + tuple(vals))
    if m == 'clear':
        s.emit('clear', ob, line)
        write(s, ob, EMPTY if cls != 'std::basic_string' else ('s', ''))
        return V(s, ('void',))
    if m == 'reserve' or m == 'shrink_to_fit':
        return V(s, ('void',))
    if m in ('resize', 'assign'):
        s.emit(m, ob, tuple(vals), line, fr.fn)
        if m == 'resize' and len(vals) >= 1:
            write(s, ob, ('resized', v, vals[0]))
            s.facts[mk(('eq', size_of(('resized', v, vals[0])), vals[0]))] = True
        else:
            write(s, ob, ('assigned',) + tuple(vals))
        return V(s, ('void',))
    if m == 'swap':
        l2 = I.as_loc(s, args[0])
        v2 = read(s, l2)
        write(s, ob, v2)
        write(s, l2, v)
        s.emit('swap', ob, l2, line)
        return V(s, ('void',))
    if m == 'operator=':
        if args and args[0][0] == 'L' and e.get('pk', '')[:1] == 'x':
            src = args[0][1]
            w = read(s, src)
            write(s, src, MOVED)
            s.emit('moved', src, line)
        else:
            w = vals[0]
        if cls == 'std::basic_string' and w[0] == 'c':
            w = ('s', chr(w[1] & 255))
        write(s, ob, w)
        s.emit('store', ob, w, line)
        return L(s, ob)
    if cls.startswith('std::basic_string'):
        if m in ('c_str', 'data'):
            return V(s, ('it', ob, C(0)) if v[0] != 's' else v)
        if m in ('operator+=', 'append'):
            w = vals[0]
            if len(vals) == 1:
                if w[0] == 'c':
                    w = ('s', chr(w[1] & 255))
                nv = ('s', v[1] + w[1]) if v[0] == 's' and w[0] == 's' else ('cat', v, w)
            else:
                nv = ('cat', v, ('agg',) + tuple(vals))
            write(s, ob, nv)
            s.emit('append', ob, w if len(vals) == 1 else ('agg',) + tuple(vals), line, fr.fn)
            return L(s, ob)
        if m == 'compare' and len(vals) == 1:
            return V(s, ('cmp3', v, vals[0]))
        if m == 'substr':
            if I.on_pos:
                I.on_pos(s, ob, vals[0] if vals else C(0), e, fr)
            return V(s, ('substr', v) + tuple(vals))
        if m in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of'):
            return V(s, ('call', cls + '::' + m, v) + tuple(vals))
        return None
    if m == 'data':
        return V(s, ('it', ob, C(0)))
    return None


def mk(a):
    if a[0] == 'eq' and repr(a[1]) > repr(a[2]):
        return ('eq', a[2], a[1])
    return a


def _range(I, s, b, e_):
    """(container, first, last) of an iterator pair"""
    if b[0] == 'it' and e_[0] == 'it' and b[1] == e_[1]:
        return b[1], b[2], e_[2]
    return None


def each(I, e, s, fr, cont, lo, hi, fn, extra=(), line=None, kind='each'):
    """a generic element of a range handed to a function; the body's outcomes as a loop node"""
    I.nu += 1
    ix = ('ix', I.nu)
    pos = I.sum(lo, ix) if lo != C(0) else ix
    h = s.copy()
    h.ev = ()
    pre = dict(h.facts)
    t = assume(h, mk_lt(pos, hi), True)
    paths = []
    if t is not None:
        a = [('L', ('elem', cont, pos))]
        for c2, lo2 in extra:
            a.append(('L', ('elem', c2, I.sum(lo2, ix) if lo2 != C(0) else ix)))
        I.exc.append([])
        for s2, r in I.apply(fn, t, fr, a, e):
            paths.append((s2, I.val(s2, r), r))
        for s2, v in I.exc.pop():
            paths.append((s2, ('thrown', v), None))
    return ix, pos, pre, paths


def loopnode(I, fr, s, ix, rng, paths, line, pre, kind, op=None):
    deltas = [{k: v for k, v in f.items() if pre.get(k) != v} for (kd, f, ev, val) in paths if kd == 'norm']
    common = {}
    if deltas:
        common = {k: v for k, v in deltas[0].items() if all(d.get(k) == v for d in deltas[1:])}
    return ('loop', {'ix': ix, 'range': rng, 'paths': paths, 'line': line, 'ind': (), 'changed': [],
                     'common': common, 'fn': fr.fn, 'exits': ['cond'], 'post': False, 'pre': s.ev,
                     'prefacts': pre, 'prestore': s.copy(), 'alg': kind, 'op': op}), common


def functor_loop(I, e, s, fr, cont, lo, hi, fn, args, line):
    """for_each with an object of the program's own class: its state lives through the rounds and is the answer"""
    from absint import Out
    if fn[0] in ('lam', 'fn') or len(e['a']) != 3:
        return None
    t = I.P.ty(e['a'][2]['t'])
    while t['k'] in ('ref', 'rref'):
        t = I.P.ty(t['p'])
    cls = t['s'].replace('const ', '')
    ops = [f for f in I.P.by_class(cls) if f['n'] == 'operator()' and f.get('body') is not None and len(f['ps']) == 1]
    if len(ops) != 1 or fr.depth >= I.max_depth or ops[0]['f'] in fr.stack:
        return None
    I.nu += 1
    fl = ('lv', fr.id, 'functor@%d' % I.nu)
    write(s, fl, fn)
    I.nu += 1
    ix = ('ix', I.nu)
    pos = ix if lo == C(0) else I.sum(lo, ix)

    def header(st):
        t = assume(st.copy(), mk_lt(pos, hi), True)
        return ([t] if t is not None else []), [st.copy()]

    def body(st, fr2):
        return [Out('norm', s2) for s2, v in I.invoke(ops[0], st, fr2, fl, [('L', ('elem', cont, pos))])]
    outs = I.loop_core({'l': line}, s, fr, header, lambda x: [x], {'s': 'py', 'do': body}, ('range', cont, lo, hi), ix)
    return [(o.st, ('V', read(o.st, fl))) for o in outs if o.kind == 'norm']


def algorithm(I, e, m, s, fr, args, line):
    vals = [I.val(s, a) for a in args]
    if m in ('for_each', 'transform', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'copy', 'copy_if',
             'remove_if', 'count_if', 'equal', 'find', 'accumulate', 'lower_bound', 'binary_search',
             'upper_bound', 'min', 'max', 'count', 'sort', 'unique', 'reverse'):
        pass
    else:
        return None
    if m in ('min', 'max') and len(vals) == 2:
        a, b = vals
        out = []
        T, F = I.test(s, mk_lt(b, a))
        if T is not None:
            out += V(T, b if m == 'min' else a)
        if F is not None:
            out += V(F, a if m == 'min' else b)
        return out
    if len(vals) < 2:
        return None
    r = _range(I, s, vals[0], vals[1])
    back = False
    if r is None and m in ('for_each', 'transform', 'copy', 'copy_if', 'any_of', 'all_of', 'none_of') and \
            vals[0][0] == 'rit' and vals[1][0] == 'rit' and vals[0][1] == vals[1][1]:
        r = vals[0][1], vals[1][2], vals[0][2]
        back = not m.endswith('_of')
    if r is None:
        return None
    cont, lo, hi = r
    # from the back: the container of the range is marked, so that no rule takes the order for the forward one
    rng = ('rrange', ('rev', cont), lo, hi) if back else ('range', cont, lo, hi)

    def boolpaths(fn, extra=()):
        ix, pos, pre, ps = each(I, e, s, fr, cont, lo, hi, fn, extra, line)
        T, F, TH = [], [], []
        for s2, v, r in ps:
            if v[0] == 'thrown':
                TH.append((s2, v))
                continue
            a, b = I.test(s2, v)
            if a is not None:
                T.append(a)
            if b is not None:
                F.append(b)
        return ix, pos, pre, T, F, TH

    if m in ('all_of', 'any_of', 'none_of', 'equal', 'find_if', 'find_if_not', 'find', 'count_if'):
        if m == 'equal':
            v2 = vals[2]
            if v2[0] != 'it':
                return None
            extra = ((v2[1], v2[2]),)
            if len(vals) == 3 or (len(vals) == 4 and is_it(vals[3])):
                fn = None
            else:
                fn = vals[3] if len(vals) == 4 else vals[-1]
        elif m == 'find':
            extra, fn = (), None
        else:
            extra, fn = (), vals[2]
        if fn is None:
            I.nu += 1
            ix = ('ix', I.nu)
            pos = I.sum(lo, ix) if lo != C(0) else ix
            pre = dict(s.facts)
            h = s.copy()
            h.ev = ()
            h = assume(h, mk_lt(pos, hi), True)
            T, F, TH = [], [], []
            if h is not None:
                x = read(h, ('elem', cont, pos))
                y = read(h, ('elem', extra[0][0], I.sum(extra[0][1], ix) if extra[0][1] != C(0) else ix)) if extra else vals[2]
                a, b = I.test(h, mk_eq(x, y))
                T, F = ([a] if a is not None else []), ([b] if b is not None else [])
        else:
            ix, pos, pre, T, F, TH = boolpaths(fn, extra)
        stop_on = {'all_of': F, 'any_of': T, 'none_of': T, 'equal': F, 'find_if': T, 'find_if_not': F, 'find': T,
                   'count_if': []}[m]
        go_on = {'all_of': T, 'any_of': F, 'none_of': F, 'equal': T, 'find_if': F, 'find_if_not': T, 'find': F,
                 'count_if': T + F}[m]
        paths = [('norm', x.facts, x.ev, None) for x in go_on] + [('brk', x.facts, x.ev, None) for x in stop_on]
        rng2 = rng + tuple(extra)
        node, common = loopnode(I, fr, s, ix, rng2, paths, line, pre, m)
        out = []
        res_end = {'all_of': TRUE, 'any_of': FALSE, 'none_of': TRUE, 'equal': TRUE}.get(m)
        res_stop = {'all_of': FALSE, 'any_of': TRUE, 'none_of': FALSE, 'equal': FALSE}.get(m)
        if m in ('find_if', 'find', 'find_if_not'):
            res_end, res_stop = ('it', cont, hi), ('it', cont, pos)
        if m == 'count_if':
            res_end = ('call', 'std::count_if', I.fresh())
        se = s.copy()
        se.ev = s.ev + (node,)
        for k, v in common.items():
            if mentions(k, ix):
                se.facts[('forall', ix, k)] = v
        out += V(se, res_end)
        for x in stop_on:
            x = x.copy()
            x.ev = s.ev + (node,) + x.ev
            out += V(x, res_stop)
        for x, v in TH:
            I.exc[-1].append((x, v[1]))
        return I.cap(out)
    if m in ('for_each', 'transform', 'copy', 'copy_if', 'remove_if', 'accumulate'):
        if m == 'copy':
            if len(vals) < 3:
                return None
            I.nu += 1
            ix = ('ix', I.nu)
            pos = I.sum(lo, ix) if lo != C(0) else ix
            h = s.copy()
            h.ev = ()
            pre = dict(h.facts)
            x = read(h, ('elem', cont, pos))
            if vals[2][0] == 'backins':
                h.emit('push', vals[2][1], x, line, fr.fn)
            else:
                h.emit('copyto', vals[2], x, line, fr.fn)
            node, common = loopnode(I, fr, s, ix, rng, [('norm', h.facts, h.ev, None)], line, pre, m)
            s.ev = s.ev + (node,)
            if vals[2][0] == 'backins':
                write(s, vals[2][1], ('hv', ix[1], vals[2][1], None))
            return V(s, ('call', 'std::copy', I.fresh()))
        fn = vals[-1]
        if m in ('transform',) and len(vals) > 4:
            return None
        if m == 'accumulate':
            I.nu += 1
            accl = ('tmp', 'acc', I.nu)
            acc0 = vals[2]
            if len(vals) == 3:
                return V(s, ('call', 'std::accumulate', read(s, cont), lo, hi, acc0))
            I.nu += 1
            ix = ('ix', I.nu)
            pos = I.sum(lo, ix) if lo != C(0) else ix
            h = s.copy()
            h.ev = ()
            pre = dict(h.facts)
            accv = ('acc', ix)
            write(h, accl, accv)
            h = assume(h, mk_lt(pos, hi), True) or h
            paths, ends = [], []
            for s2, rr in I.apply(fn, h, fr, [('L', accl), ('L', ('elem', cont, pos))], e):
                v = I.val(s2, rr)
                paths.append(('norm', s2.facts, s2.ev, ('V', v)))
                ends.append((s2, v))
            node, common = loopnode(I, fr, s, ix, rng, paths, line, pre, m, op=(acc0, accv))
            s.ev = s.ev + (node,)
            return V(s, ('fold', ix, cont, acc0))
        if m == 'for_each' and not back:
            r = functor_loop(I, e, s, fr, cont, lo, hi, fn, args, line)
            if r is not None:
                return r
        ix, pos, pre, ps = each(I, e, s, fr, cont, lo, hi, fn, (), line)
        paths = []
        outs_changed = {}
        for s2, v, rr in ps:
            if v[0] == 'thrown':
                paths.append(('throw', s2.facts, s2.ev, v[1]))
                x = s2.copy()
                I.exc[-1].append((x, v[1]))
                continue
            if m == 'copy_if':
                a, b = I.test(s2, v)
                if a is not None:
                    x = read(a, ('elem', cont, pos))
                    if vals[2][0] == 'backins':
                        a.emit('push', vals[2][1], x, line, fr.fn)
                    paths.append(('norm', a.facts, a.ev, None))
                if b is not None:
                    paths.append(('norm', b.facts, b.ev, None))
                continue
            if m == 'remove_if':
                a, b = I.test(s2, v)
                if a is not None:
                    a.emit('removed', cont, pos, line)
                    paths.append(('norm', a.facts, a.ev, TRUE))
                if b is not None:
                    b.emit('kept', cont, pos, line)
                    paths.append(('norm', b.facts, b.ev, FALSE))
                continue
            if m == 'transform':
                d = vals[2]
                if d[0] == 'backins':
                    s2.emit('push', d[1], v, line, fr.fn)
                else:
                    s2.emit('copyto', d, v, line, fr.fn)
            for l in list(s2.store):
                if s.store.get(l) != s2.store.get(l) and l[0] not in ('tmp',) and (l in s.store or l[0] != 'lv'):
                    outs_changed[l] = True
            paths.append(('norm', s2.facts, s2.ev, ('V', v)))
        node, common = loopnode(I, fr, s, ix, rng, paths, line, pre, m)
        s.ev = s.ev + (node,)
        for l in outs_changed:
            write(s, l, ('hv', ix[1], l, None))
        for k, v in common.items():
            if mentions(k, ix):
                s.facts[('forall', ix, k)] = v
        if m in ('transform', 'copy_if') and vals[2][0] == 'backins':
            write(s, vals[2][1], ('hv', ix[1], vals[2][1], None))
        if m == 'remove_if':
            return V(s, ('it', cont, ('removed', ix)))
        return V(s, ('call', 'std::' + m, I.fresh()))
    if m in ('lower_bound', 'upper_bound', 'binary_search'):
        r = ('call', 'std::' + m, read(s, cont), lo, hi, vals[2], vals[3] if len(vals) > 3 else None)
        s.emit('search', m, cont, lo, hi, vals[2], vals[3] if len(vals) > 3 else None, line)
        if m == 'binary_search':
            return V(s, r)
        return V(s, ('it', cont, r))
    return None

"""Front end: turns /repo's current sources into resolved syntax trees.

Every translation unit is handed to tool/astdump (clang 18).  A dump is reused only
when the main file, every repository file the unit read, the stubs, the tool and the
flags are byte for byte what they were when the dump was made.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PK = REPO + '/packages/'
TOOL = VERIF + '/build/astdump'
CACHE = os.environ.get('VERIF_CACHE', VERIF + '/build/cache')

FLAGS = ['-std=c++17', '-ferror-limit=0', '-w', '-DNDEBUG', '-DDRAFTER_BUILD_STATIC=1', '-I' + VERIF + '/stubs/inc',
         '-Idrafter/src', '-Iapib-parser/include', '-Iapib-parser/src/snowcrash',
         '-Iapib-parser/src/markdown-parser', '-Iapib-parser/src', '-Iboost', '-Iapib/include']

# not part of any Linux build of the project (CMake never lists them here)
EXCLUDE = ('grammar/Mediatype.cc', '/win/')


class FrontError(Exception):
    pass


def all_units():
    out = []
    for pkg in ('apib', 'apib-parser', 'drafter'):
        for d, ds, fs in os.walk(PK + pkg + '/src'):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith('.cc'):
                    continue
                p = os.path.join(d, f)[len(PK):]
                if any(x in p for x in EXCLUDE):
                    continue
                out.append(p)
    # units that only instantiate templates of the repository's headers
    w = VERIF + '/stubs/witness'
    out += sorted(w + '/' + f for f in os.listdir(w)) if os.path.isdir(w) else []
    return out


def _h(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return 'absent'


_stubhash = None


def _base():
    global _stubhash
    if _stubhash is None:
        m = hashlib.sha1()
        m.update('\0'.join(FLAGS).encode())
        m.update(_h(VERIF + '/tool/astdump.cc').encode())
        for d, ds, fs in os.walk(VERIF + '/stubs'):
            ds.sort()
            for f in sorted(fs):
                m.update((d + f).encode())
                m.update(_h(os.path.join(d, f)).encode())
        _stubhash = m.hexdigest()
    return _stubhash


def ensure_tool():
    stamp = TOOL + '.stamp'
    want = _h(VERIF + '/tool/astdump.cc')
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    r = subprocess.run(['bash', VERIF + '/tool/build.sh', TOOL], capture_output=True, text=True)
    if r.returncode:
        raise FrontError('building the front end failed: ' + r.stderr[-2000:])
    with open(stamp, 'w') as f:
        f.write(want)


def _key(files):
    m = hashlib.sha1(_base().encode())
    for f in sorted(files):
        m.update(f.encode())
        m.update(_h(PK + f).encode())
    return m.hexdigest()


def dump(unit):
    """path of an up-to-date dump of the unit"""
    os.makedirs(CACHE, exist_ok=True)
    stem = CACHE + '/' + unit.replace('/', '_')
    meta = stem + '.meta'
    try:
        with open(meta) as f:
            m = json.load(f)
        if m['key'] == _key(m['files']) and os.path.exists(stem + '.jsonl'):
            return stem + '.jsonl'
    except (OSError, ValueError, KeyError):
        pass
    fd, tmp = tempfile.mkstemp(dir=CACHE, suffix='.tmp')
    os.close(fd)
    # templates parsed where they are used when parsing them in place fails: the project's own compiler lets an
    # incomplete type pass that is complete by then
    more = ['-DLOGGING=1'] if unit.endswith('utils/log/Trivial.cc') else []        # the fuller of its two variants
    for extra in ([], ['-fdelayed-template-parsing']):
        r = subprocess.run([TOOL, tmp, PK, unit, '--'] + FLAGS + more + extra, cwd=PK, capture_output=True, text=True)
        last = None
        try:
            with open(tmp, 'rb') as f:
                for line in f:
                    if line.startswith(b'{"errors"') or b'"k":"deps"' in line[-40:] or b'"k":"deps"' in line:
                        last = line
            last = json.loads(last)
        except (TypeError, ValueError):
            last = None
        if last is not None and not last.get('errors'):
            break
    if last is None or r.returncode and not last.get('errors'):
        os.unlink(tmp)
        raise FrontError('cannot parse %s: %s' % (unit, r.stderr[-1500:]))
    errors = r.stderr[-1500:] if last.get('errors') else ''
    os.rename(tmp, stem + '.jsonl')
    files = last['files']
    fd, tmp = tempfile.mkstemp(dir=CACHE, suffix='.tmp')
    with os.fdopen(fd, 'w') as f:
        json.dump({'key': _key(files), 'files': files, 'errors': errors}, f)
    os.rename(tmp, meta)
    return stem + '.jsonl'


def dump_all(units):
    """dumps in the order of the units; None for one that cannot be parsed"""
    ensure_tool()

    def one(u):
        try:
            return dump(u)
        except FrontError as e:
            return e
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units))


def strip_targs(s):
    """drop template argument lists from a qualified name"""
    out, depth, i = [], 0, 0
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith('operator', i):
            # operator<, operator<<, operator->, ...
            j = i + 8
            while j < n and s[j] in '<>=-!+*/&|^%[]()' and not (s[j] == '(' and depth == 0 and s[i + 8:j]):
                j += 1
            if depth == 0:
                out.append(s[i:j])
            i = j
            continue
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class Program:
    """merged view of a set of units"""

    def __init__(self, units):
        self.units = list(units)
        self.types = {}
        self.fns = {}     # usr -> fn
        self.recs = {}    # qualified name -> rec
        self.rec_at = {}  # the same by file too: names in an anonymous namespace are not one
        self.enums = {}
        self.gvars = {}
        self.files = set()
        self.nodes = 0
        self.unparsed = []
        loaded = 0
        for p, u in zip(dump_all(self.units), self.units):
            if isinstance(p, FrontError):
                self.unparsed.append((u, str(p)))
                continue
            loaded += 1
            self._load(p, u)
            with open(p[:-len('.jsonl')] + '.meta') as f:
                e = json.load(f).get('errors')
            # what the compiler got through is analysed, the rest is told
            if e:
                self.unparsed.append((u, e))
        if not loaded:
            raise FrontError(self.unparsed[0][1])
        self.byname = {}
        for f in self.fns.values():
            f['b'] = strip_targs(f['q'])
            self.byname.setdefault(f['b'], []).append(f)
        self.overriders = {}
        for f in self.fns.values():
            for o in f.get('ov', ()):
                self.overriders.setdefault(o, []).append(f['f'])

    def _load(self, path, unit):
        with open(path, 'rb') as fh:
            for line in fh:
                o = json.loads(line)
                if 'T' in o and 's' in o and 'file' not in o:
                    self.types[o['T']] = o
                elif o['k'] == 'fn':
                    old = self.fns.get(o['f'])
                    if old is None or ('body' in o and 'body' not in old):
                        o['unit'] = unit
                        self.fns[o['f']] = o
                elif o['k'] == 'rec':
                    self.recs[o['q']] = o
                    self.rec_at[o['q'], o.get('file')] = o
                elif o['k'] == 'enum':
                    self.enums[o['q']] = o
                elif o['k'] == 'gvar':
                    old = self.gvars.get(o['u'])
                    if old is None or ('e' in o and 'e' not in old) or (o.get('def') and not old.get('def')):
                        o['unit'] = unit
                        self.gvars[o['u']] = o
                elif o['k'] == 'deps':
                    self.files.update(o['files'])

    # -- helpers ---------------------------------------------------------
    def ty(self, tid):
        return self.types.get(tid, {'s': '?', 'k': 'other'})

    def named(self, base, **kw):
        """functions whose qualified name without template arguments is `base`"""
        out = []
        for f in self.byname.get(base, []):
            if all(f.get(k) == v for k, v in kw.items()):
                out.append(f)
        return out

    def one(self, base, pred=None, body=True):
        c = [f for f in self.byname.get(base, []) if (not body or 'body' in f) and (pred is None or pred(f))]
        if not c:
            raise AnchorLost('no function %s' % base)
        return c[0]

    def by_class(self, cls):
        if not hasattr(self, '_bycls'):
            self._bycls = {}
            for f in self.fns.values():
                if 'cls' in f:
                    self._bycls.setdefault(f['cls'], []).append(f)
        return self._bycls.get(cls, [])

    def ptypes(self, f):
        return [self.ty(p['t'])['s'] for p in f['ps']]


class AnchorLost(Exception):
    """a construct every rule instance hangs on is not there any more"""


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from walk(v)


def walk_lam(prog, x, seen=None):
    """like walk, and into the bodies of lambdas"""
    seen = set() if seen is None else seen
    for n in walk(x):
        yield n
        if n.get('k') == 'lam':
            for u in [n['f']] + n.get('specs', []):
                if u in prog.fns and u not in seen:
                    seen.add(u)
                    yield from walk_lam(prog, prog.fns[u].get('body'), seen)


def loc(f, node=None):
    l = (node or {}).get('l') or f.get('line')
    return '%s:%s' % (f['file'], l)

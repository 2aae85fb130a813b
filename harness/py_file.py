"""Opening containers and mutating groups in z5py: the real file.py / group.py executed symbolically over stand-ins of the compiled handles.
argv: out.json seconds what(0 open a container, 1 operations on names: operation, zarr; 2 creating datasets: format, dimensions)"""
import sys, json, time, os, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pysym as P
REPO = os.environ.get('Z5_REPO', '/repo'); out, seconds, what = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])

class FileMode:                                    # the bits of the compiled FileMode
    r, r_p, w, w_m, a = 0, 1, 11, 7, 3
    def __init__(s, m): s.m = m
    def mode(s): return {0: 'r', 1: 'r+', 11: 'w', 7: 'w-', 3: 'a'}[s.m]
    def can_write(s): return s.m != 0
    def can_create(s): return s.m in (11, 7, 3)
    def must_not_exist(s): return s.m == 7
    def should_truncate(s): return s.m == 11
class World:
    """a store: absolute path -> 'c' container, 'g' group, 'd' dataset, 'dir' directory without a marker"""
    def __init__(s): s.nodes = {}; s.zarr = False; s.version = 2; s.markers = (); s.log = []
    exists = property(lambda s: PATH in s.nodes)
W = None; TOP = '/top'
class Handle:                                      # paths are joined as std::filesystem does: an absolute name replaces the rest
    def __init__(s, path, mode=None):
        if isinstance(path, Handle): s.p = norm(os.path.join(path.p, mode)); s.m = path.m
        else: s.p = path; s.m = mode
    def path(s): return s.p
    def mode(s): return s.m
    def exists(s): return s.p in W.nodes
    def is_zarr(s): return W.zarr
    def is_s3(s): return False
    is_gcs = is_s3
    def need(s):
        if not s.m.can_write(): raise ValueError('read-only')
    def remove(s):
        s.need(); W.log.append(('remove', s.p))
        for k in [k for k in W.nodes if k == s.p or k.startswith(s.p + '/')]: del W.nodes[k]
    def read_metadata(s): return json.dumps({'zarr_format': W.version} if W.zarr else {} if W.version is None else {'n5': '%d.0.0' % W.version})
    def has(s, n): return norm(os.path.join(s.p, n)) in W.nodes
    def keys(s): return [k[len(s.p) + 1:] for k in W.nodes if k.startswith(s.p + '/') and '/' not in k[len(s.p) + 1:]]
    def is_sub_group(s, n): k = W.nodes.get(norm(os.path.join(s.p, n))); return k in (('g', 'c') if W.zarr else ('g', 'c', 'dir'))
    def relative_path(s, o): return os.path.relpath(o.p, s.p)
    def get_dataset_handle(s, n): return Handle(s, n)
def norm(p): p = os.path.normpath(p); return '/' + p.lstrip('/') if p.startswith('/') else p
def make(h, n, kind):
    h.need(); p = norm(os.path.join(h.p, n))
    if p in W.nodes: raise RuntimeError('exists already')
    q = os.path.dirname(p)
    while q not in W.nodes and q not in ('', '/'):
        W.nodes[q] = 'dir'; q = os.path.dirname(q)
    W.nodes[p] = kind; return p
class Impl:
    def __init__(s, p): s.p = p; s.shape = s.chunks = (4, 4); s.shards = (); s.ndim = 2; s.size = s.len = 16; s.dtype = 'uint8'; s.is_zarr = W.zarr; s.compressor = 'raw'; s.compression_options = '{}'
class Rec(types.ModuleType):
    FileMode = FileMode; File = Handle; Group = Handle; DatasetHandle = Handle
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return lambda *a, **k: None
    def get_available_codecs(s): import collections; return collections.defaultdict(lambda: True)
    def create_file(s, h, z, f=2):
        if h.p in W.nodes: raise RuntimeError('exists')
        if not h.m.can_create(): raise ValueError('mode')
        W.log.append(('create', h.p, bool(z), f)); W.nodes[h.p] = 'c'; W.zarr = bool(z); W.version = f if z else 4
    def create_group(s, h, n, f=2): p = make(h, n, 'g'); W.log.append(('group', p, f)); return Handle(p, h.m)
    def create_dataset(s, root, key, dtype, shape, chunks, compression, compression_options='', fill_value=0, dimension_separator='.', zarr_format=2, shards=(), chunk_key_encoding='default'):
        p = make(root, key, 'd'); W.log.append(('dataset', p, zarr_format, dict(dtype=dtype, shape=tuple(shape), chunks=tuple(chunks), compression=compression, options=compression_options, fill=fill_value, sep=dimension_separator, shards=tuple(shards), enc=chunk_key_encoding))); i = Impl(p); i.shape, i.chunks, i.shards, i.dtype, i.compressor, i.compression_options, i.ndim = list(shape), list(chunks), list(shards), dtype, compression, compression_options, len(shape); return i
    def open_dataset(s, h, n):
        p = norm(os.path.join(h.p, n))
        if W.nodes.get(p) != 'd': raise RuntimeError('Invalid path')
        return Impl(p)
    def remove_dataset(s, i, *a, **k): W.log.append(('remove', i.p)); del W.nodes[i.p]
class FOs:
    """the os module; existence is answered by the stand-in store"""
    class path:
        def __getattr__(s, n): return getattr(os.path, n)
        def exists(s, p):
            p = os.fspath(p)
            if p == PATH: return W.exists
            return W.exists and os.path.basename(p) in W.markers
        isfile = exists
        def isdir(s, p): return W.exists and os.fspath(p) == PATH
    path = path()
    def __getattr__(s, n): return getattr(os, n)

EXTS = ['.zarr', '.zr', '.ZARR', '.n5', '.N5', '', '.dir']; MODES = ['r', 'r+', 'a', 'w', 'w-', 'x', 'rw']; FM = {'a': 3, 'r': 0, 'r+': 1, 'w': 11, 'w-': 7, 'x': 7}
PATH = None
class Conc:
    """plain values for a replay"""
    def __init__(s, inp): s.q = [v for _, v in inp]
    def sym(s, n): return s.q.pop(0)
    def assume(s, c): pass
    def cover(s, n): pass
    def check(s, c, m):
        if not c: raise AssertionError(m)
def pick(c, name, n):
    v = c.sym(name); c.assume(v >= 0); c.assume(v < n)
    for k in range(n - 1):
        if v == k: return k
    return n - 1
import z3
def AND(*x): return all(x) if all(isinstance(v, bool) for v in x) else P.SBool(z3.And(*[P.expr(v) for v in x]))
def OR(*x): return any(x) if all(isinstance(v, bool) for v in x) else P.SBool(z3.Or(*[P.expr(v) for v in x]))
def NOT(x): return not x if isinstance(x, bool) else P.SBool(z3.Not(x.c))
class Stored:
    """the container as it may be stored: existence, format, marker and version are only decided when the code asks"""
    def __init__(s, c, z): s.e0 = s.e = c.sym('exists') == 1; s.v = c.sym('version'); s.z0 = s.z = (c.sym('stored as zarr') == 1) if z is None else z; s.mk = c.sym('marker'); c.assume(AND(s.mk >= 0, s.mk <= 2)); s.log = []
    def exists(s, p):
        if p == PATH: return s.e
        b = os.path.basename(p)
        if os.path.dirname(p) != PATH or b not in ('.zgroup', '.zarray', 'zarr.json', 'attributes.json'): return False
        return AND(s.e, NOT(s.z0)) if b == 'attributes.json' else AND(s.e, s.z0, s.mk == ('.zgroup', '.zarray', 'zarr.json').index(b))
class Version:                                     # an n5 version string with a symbolic first character
    def __init__(s, v): s.v = v
    def __getitem__(s, i):
        if i != 0: raise P.Inconclusive('more of the version string is used')
        return s.v
    def split(s, *a): return [s.v, '0', '0']
    def partition(s, *a): return (s.v, '.', '0.0')
class OHandle(Handle):
    def exists(s): return W.e
    def is_zarr(s): return W.z
    def has(s, n): raise P.Inconclusive('has')
    def remove(s): s.need(); W.log.append(('remove', s.p)); W.e = False
    def read_metadata(s): return '<document>'
class FJson:
    def __getattr__(s, n): return getattr(json, n)
    def loads(s, t, **k):
        if t != '<document>': return json.loads(t, **k)
        if W.z: return {'zarr_format': W.v}
        return {'n5': Version(W.v)} if W.v >= 0 else {}
class ORec(Rec):
    File = OHandle
    def create_file(s, h, z, f=2):
        if W.e: raise RuntimeError('exists')
        if not h.m.can_create(): raise ValueError('mode')
        W.log.append(('create', h.p, bool(z), f)); W.e = True; W.z = bool(z); W.v = f if z else 4
class SOs(FOs):
    class path(type(FOs.path)):
        def exists(s, p): return W.exists(os.fspath(p))
        isfile = exists
        def isdir(s, p): return W.exists(os.fspath(p)) if os.fspath(p) == PATH else False
    path = path()
def opening(c):
    global PATH, W
    ext = EXTS[pick(c, 'extension', len(EXTS))]; PATH = TOP + '/c' + ext; z = None if ext in ('', '.dir') else ext.lower() in ('.zarr', '.zr'); mode = MODES[pick(c, 'mode', len(MODES))]; use = [None, True, False][pick(c, 'use_zarr_format', 3)]; zf = 2 + pick(c, 'zarr_format', 2)
    W = Stored(c, z); e0, z0, v0 = W.e0, W.z0, W.v; new = isinstance(c, Conc)
    m = P.load(REPO, 'file', {'_z5py': ORec('_z5py')}, not isinstance(c, Conc)); m.os = SOs(); m.json = FJson(); err = None; f = None
    try: f = m.File(PATH, mode, use, zarr_format=zf)
    except (P.PathEnd, P.Violation, P.Inconclusive): raise
    except Exception as ex: err = ex
    want = z if z is not None else AND(e0, z0)                             # the format of the container
    fresh = use is True and z is None                                     # a new zarr container on a path without extension: refused or created as asked
    m_ok = OR(mode in ('a', 'w'), AND(mode in ('r', 'r+'), e0), AND(mode in ('w-', 'x'), NOT(e0)))
    f_ok = OR(use is None, want if use else NOT(want)); v_ok = OR(NOT(e0), mode == 'w', OR(AND(z0, OR(v0 == 2, v0 == 3)), AND(NOT(z0), v0 <= 4)))
    if err is not None:
        c.check(not W.log, 'a refused opening touches nothing (%s, %s)' % (mode, W.log)); c.cover('refused')
        c.check(NOT(AND(m_ok, f_ok, v_ok)), 'mode %s, extension %r, use_zarr_format %s: refused with %r' % (mode, ext, use, err)); return
    c.check(m_ok, 'mode %s: opened' % mode); c.check(OR(f_ok, AND(fresh, NOT(e0))), 'extension %r opened with use_zarr_format %s' % (ext, use)); c.check(v_ok, 'a container of an unsupported version is refused')
    # what was done to the store
    creates = [x for x in W.log if x[0] == 'create']; removes = [x for x in W.log if x[0] == 'remove']; c.check(len(W.log) == len(creates) + len(removes) and len(creates) < 2 and len(removes) < 2 and (not creates or W.log[-1] is creates[0]), 'mode %s performed %s' % (mode, W.log))
    c.check(AND(mode == 'w', e0) if removes else OR(mode != 'w', NOT(e0)), 'only w removes, and it removes an existing container (mode %s performed %s)' % (mode, W.log)); c.check(OR(mode == 'w', NOT(e0)) if creates else AND(mode != 'w', e0), 'a container is created exactly if there is none (mode %s performed %s)' % (mode, W.log))
    if creates: c.check(creates[0][1] == PATH and creates[0][3] == zf, 'created at the path, with the version asked for'); c.check(OR(want if creates[0][2] else NOT(want), fresh), 'created in the format of the path')
    c.check(f._handle.p == PATH and f._handle.mode().m == FM[mode], 'the handle has the path and mode asked for'); c.cover('opened')
    if creates: c.check(not creates[0][2] or f._zarr_format == zf, 'the zarr version of a new container is the one asked for')
    else: c.check(OR(NOT(z0), v0 == f._zarr_format), 'the zarr version of an existing container is the stored one')
OPS = ['create_group', 'require_group', 'create_dataset', 'require_dataset', '__delitem__', '__getitem__']
def mutating(c):
    """one operation under a name of 1 to 3 components, with and without a leading slash, on a file or a group, in every mode"""
    global PATH, W
    W = World(); W.zarr = bool(int(sys.argv[5])); PATH = TOP + '/c' + ('.zarr' if W.zarr else '.n5'); W.markers = ('.zgroup',) if W.zarr else (); W.version = (2 + pick(c, 'zarr_format', 2)) if W.zarr else 4; W.nodes.update({TOP: 'dir', PATH: 'c', PATH + '/d': 'd', PATH + '/g': 'g', PATH + '/g/d': 'd', PATH + '/g/g': 'g', PATH + '/g/g/g': 'g'})
    mode = ['r', 'r+', 'a'][pick(c, 'mode', 3)]; op = OPS[int(sys.argv[4])]; n = pick(c, 'components', 3) + 1
    names = []
    for i in range(n): names.append('gdx'[pick(c, 'component', 3)])
    name = '/'.join(names); lead = '/' * pick(c, 'leading slashes', 2)
    m = P.load(REPO, 'file', {'_z5py': Rec('_z5py')}, not isinstance(c, Conc)); m.os = FOs(); f = m.File(PATH, mode); base = f
    if pick(c, 'below a group', 2): base = f['g']
    bp = base._handle.p; full = bp + '/' + name; n0 = dict(W.nodes); kind = n0.get(full); ro = mode == 'r'; err = res = None; W.log = []
    anc = [bp + '/' + '/'.join(names[:i]) for i in range(1, n)]
    if any(n0.get(a) == 'd' for a in anc): blocked = True                  # below a dataset there is nothing
    else: blocked = False
    try:
        q = lead + name; a = dict(shape=(4, 4), dtype='uint8', chunks=(4, 4))
        if op == '__delitem__': del base[q]
        elif op == '__getitem__': res = base[q]
        else: res = getattr(base, op)(q, **(a if op.endswith('dataset') else {}))
    except (P.PathEnd, P.Violation, P.Inconclusive): raise
    except Exception as ex: err = ex
    new = {'create_group': 'g', 'require_group': 'g', 'create_dataset': 'd', 'require_dataset': 'd'}.get(op); req = op.startswith('require'); touches = op == '__delitem__' or (new and not (req and kind == new)); desc = '%s(%r) on a node that is %s, mode %s' % (op, lead + name, {None: 'missing', 'g': 'a group', 'd': 'a dataset'}[kind], mode)
    if new: ok = not blocked and (kind is None or (req and kind == new))
    else: ok = kind is not None
    if ro and touches: ok = False
    if err is not None: c.check(W.nodes == n0 and not W.log, 'refused, but something changed: %s: %s' % (desc, W.log)); c.cover('refused')
    c.check((err is None) == bool(ok), '%s: %r' % (desc, err))
    if err is not None: return
    exp = dict(n0)
    if new and kind is None:
        exp[full] = new
        for x in anc: exp.setdefault(x, 'g')
    if op == '__delitem__': exp = {k: v for k, v in exp.items() if k != full and not k.startswith(full + '/')}
    c.check(W.nodes == exp, '%s: the store holds %s, expected %s' % (desc, sorted(set(W.nodes.items()) - set(exp.items())), sorted(set(exp.items()) - set(W.nodes.items())))); c.cover('accepted')
    if op != '__delitem__':
        want = new or kind; c.check(res._handle.p == full and type(res).__name__ == ('Group' if want == 'g' else 'Dataset'), '%s: the object returned is at %s' % (desc, res._handle.p)); c.check(name in base and lead + name in base, desc + ': the name is found'); o = base[lead + name]; c.check(o._handle.p == full and type(o) is type(res), desc + ': the name opens the same node')
        c.check(base.is_sub_group(lead + name) == (want == 'g'), desc + ': it is a group exactly if created as one'); c.check(names[0] in list(base) and len(base) == len(base._handle.keys()), desc + ': it is listed')
    if W.zarr: c.check(all(x[2] == W.version for x in W.log if x[0] in ('group', 'dataset')), desc + ': has the zarr version of the container')
class Dumped:
    def __init__(s, d): s.d = d
class DJson(FJson):
    def dumps(s, d, **k): return Dumped(d)
    def loads(s, t, **k): return (dict(t.d) or None) if isinstance(t, Dumped) else json.loads(t, **k)
COMP = {0: ['raw', 'blosc', 'zlib', 'bzip2', 'gzip', 'zstd'], 1: ['raw', 'blosc', 'gzip', 'bzip2', 'xz', 'lz4', 'zstd'], 2: ['raw', 'gzip', 'blosc', 'zstd']}
DTS = ['uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'uint64', 'int64', 'float32', 'float64']
def creating(c):
    """what create_dataset passes to the compiled module, and what the new dataset reports"""
    global PATH, W
    fmt, nd = int(sys.argv[4]), int(sys.argv[5]); W = World(); W.zarr = fmt != 1; PATH = TOP + '/c' + ('.n5' if fmt == 1 else '.zarr'); W.markers = ('.zgroup',) if W.zarr else (); W.version = {0: 2, 1: 4, 2: 3}[fmt]; W.nodes.update({TOP: 'dir', PATH: 'c'})
    how = pick(c, 'what varies: option, type, extents, encoding, refusal', 5); comp = None; opts = {}; dt = 'int16'; kw = {}; sep = '.'; bad = False; shape = [4] * nd; chunks = [2] * nd; fill = c.sym('fill value') if how in (1, 3) else 0
    if how == 0:
        comp = COMP[fmt][pick(c, 'compressor', len(COMP[fmt]))]
        keys = {'raw': [], 'blosc': ['clevel', 'level', 'shuffle', 'blocksize', 'nthreads', 'codec']}.get(comp, ['level'])
        if keys:
            k = pick(c, 'option', len(keys) + 1)
            if k < len(keys): opts = {keys[k]: 'zstd' if keys[k] == 'codec' else c.sym('option value')}
            elif comp == 'blosc': opts = {'level': c.sym('option value'), 'codec': 'zlib', 'shuffle': c.sym('option value')}
    elif how == 1: dt = DTS[pick(c, 'type', len(DTS))]
    elif how == 2:
        shape = [c.sym('shape') for _ in range(nd)]; chunks = [c.sym('chunk') for _ in range(nd)]
        for x in shape + chunks: c.assume(AND(x >= 1, x < 2 ** 63))
        if pick(c, 'no chunks given', 2): chunks = None
    elif how == 3:
        if fmt == 2:
            kw['chunk_key_encoding'] = ('default', 'v2')[pick(c, 'encoding', 2)]
            if pick(c, 'sharded', 2): kw['shards'] = tuple(c.sym('shard') for _ in range(nd)); [c.assume(x >= 1) for x in kw['shards']]
        else: sep = './'[pick(c, 'separator', 2)]
    else:
        bad = True; w = pick(c, 'refusal', 5)
        if w == 0: chunks = [2] * (nd + 1)
        elif w == 1: dt = ('complex64', 'S3', 'bool')[pick(c, 'bad type', 3)]
        elif w == 2: comp = {0: ('lz4', 'xz', 'lzma'), 1: ('zlib', 'lz', 'deflate'), 2: ('bzip2', 'xz', 'zlib')}[fmt][pick(c, 'bad compressor', 3)]
        elif w == 3: comp, opts = (('raw', {'level': 3}), ('gzip', {'blub': 3}), ('zstd', {'level': 3, 'shuffle': 1}))[pick(c, 'bad option', 3)]
        else:
            if fmt == 2: return
            kw['shards'] = (4,) * nd
    m = P.load(REPO, 'file', {'_z5py': Rec('_z5py')}, not isinstance(c, Conc)); m.os = FOs(); sys.modules['z5py.dataset'].__dict__['json'] = DJson(); f = m.File(PATH, 'a', dimension_separator=sep); n0 = dict(W.nodes); err = d = None
    try: d = f.create_dataset('x', shape=tuple(shape), dtype=dt, chunks=None if chunks is None else tuple(chunks), compression=comp, fillvalue=fill, **kw, **opts)
    except (P.PathEnd, P.Violation, P.Inconclusive): raise
    except Exception as ex: err = ex
    desc = 'create_dataset(format %s, %s, %s, %s)' % (('zarr v2', 'n5', 'zarr v3')[fmt], dt, comp, sorted(opts))
    c.check((err is None) == (not bad), '%s: %r' % (desc, err))
    if err is not None: c.check(W.nodes == n0, desc + ': refused but created'); c.cover('refused'); return
    c.check(len(W.log) == 1 and W.log[0][0] == 'dataset' and W.log[0][1] == PATH + '/x' and W.log[0][2] == (3 if fmt == 2 else 2), '%s created %s' % (desc, [x[:3] for x in W.log])); g = W.log[0][3]
    c.check(g['dtype'] == dt and len(g['shape']) == nd and len(g['chunks']) == nd, desc + ': element type and dimensions'); c.check(AND(*[a == b for a, b in zip(g['shape'], shape)]), desc + ': the shape asked for')
    if chunks is not None: c.check(AND(*[OR(AND(x == k, k <= n), AND(x == n, k > n)) for x, k, n in zip(g['chunks'], chunks, shape)]), desc + ': the chunk shape asked for, limited to the shape')
    else: c.check(AND(*[AND(x >= 1, x <= n) for x, n in zip(g['chunks'], shape)]), desc + ': default chunks lie within the shape')
    c.check(comp is None or g['compression'] == comp, desc + ': the compressor asked for'); c.check(g['fill'] == fill, desc + ': the fill value asked for')
    c.check(g['enc'] == kw.get('chunk_key_encoding', 'default') if fmt == 2 else True, desc + ': the key encoding asked for'); c.check(g['sep'] == ('.' if kw.get('chunk_key_encoding') == 'v2' else '/') if fmt == 2 else g['sep'] == sep if fmt == 0 else True, desc + ': the separator asked for')
    sh = kw.get('shards', ()); c.check(len(g['shards']) == len(sh) and AND(*([a == b for a, b in zip(g['shards'], sh)] or [True])), desc + ': the shard shape asked for')
    o = g['options'].d if isinstance(g['options'], Dumped) else json.loads(g['options']) if g['options'] else {}
    c.check(set(o) <= {'level', 'codec', 'shuffle', 'blocksize', 'nthreads', 'useZlib', 'id'}, desc + ': options the library does not know: %s' % sorted(o))
    for k, v in opts.items(): k = 'level' if k == 'clevel' else k; c.check(k in o, desc + ': the option is passed on'); c.check(o[k] == v, desc + ': the option has the value asked for')
    c.check(AND(*[a == b for a, b in zip(d.shape, shape)]) if len(d.shape) == nd else False, desc + ': the new dataset has the shape'); c.check(d.dtype == dt and len(d.chunks) == nd and AND(*[a == b for a, b in zip(d.chunks, g['chunks'])]), desc + ': the new dataset reports what was created'); c.check((d.shards is None) == (not sh) and (not sh or AND(*[a == b for a, b in zip(d.shards, sh)])), desc + ': the new dataset reports its shards')
    r = d.compression_opts; c.check('useZlib' not in r and all(k in r for k in o if k in ('level', 'codec', 'shuffle', 'blocksize')), desc + ': compression_opts reports the options'); c.cover('created')
    try: f.create_dataset('y', shape=tuple(shape), dtype=dt, chunks=None if chunks is None else tuple(chunks), compression=g['compression'], **r)
    except (P.PathEnd, P.Violation, P.Inconclusive): raise
    except Exception as ex: c.check(False, '%s: compression_opts cannot be passed back: %r' % (desc, ex))
body = (opening, mutating, creating)[what]
def concrete(inp):
    try: body(Conc(inp))
    except AssertionError as e: return [str(e)]
    except Exception as e: return None if type(e).__name__ == 'IndexError' else ['raised %r' % e]
    return []
c = P.Ctx(seconds); P.CTX = c; r = dict(status=0, inconclusive=[], violations=[])
try: c.run(body, 3)
except P.Inconclusive as e: r['status'] = 2; r['inconclusive'].append(str(e))
except Exception:
    import traceback; r['status'] = 2; r['inconclusive'].append(traceback.format_exc()[-700:])
validated = 0; samples = []
for msg, inp in c.violations:
    bad = concrete(inp); r['violations'].append(dict(kind='assertion', msg=msg, where='z5py.File / z5py.Group', inputs=[(n, 64, v) for n, v in inp], confirmed=bool(bad), text='replayed on the real modules: %s' % bad, uninit=False)); r['status'] = 1
for inp in c.samples:
    bad = concrete(inp)
    if bad: r['status'] = 2 if not c.violations else 1; r['inconclusive'].append('path model replayed differently: %s %s' % (inp, bad))
    elif bad is not None: validated += 1; samples.append(dict(job=' '.join(sys.argv[3:]), inputs=inp, native='agrees'))
r.update(paths=c.paths, forks=c.forks, queries=c.queries, solver_s=c.solver_s, checks=c.checks, checks_solver=c.checks_solver, covers=c.covers, wall_s=time.time() - c.t0, validated=validated, samples=samples, instructions=0,
    functions=['z5py.file.File.__init__', 'z5py.file.File.infer_format', 'z5py.file.File._check_version'] if not what else ['z5py.dataset.Dataset._create_dataset', 'z5py.dataset.Dataset._to_zarr_compression_options', 'z5py.dataset.Dataset._to_n5_compression_options', 'z5py.dataset.Dataset._to_zarr_v3_compression_options', 'z5py.shape_utils.get_default_chunks'] if what == 2 else ['z5py.group.Group.create_group', 'z5py.group.Group.require_group', 'z5py.group.Group.create_dataset', 'z5py.group.Group.require_dataset', 'z5py.group.Group.__delitem__', 'z5py.dataset.Dataset._create_dataset', 'z5py.dataset.Dataset._require_dataset'])
json.dump(r, open(out, 'w'))

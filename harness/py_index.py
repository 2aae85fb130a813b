"""Dataset indexing and assignment in z5py: the real dataset.py / shape_utils.py executed symbolically.
argv: out.json seconds mode(0 read, 1 assign an array, 2 assign a scalar) ndim kinds...
mode 0, 2: kinds = items of the index: 0 integer, 1 slice, 2 ellipsis, 3 ':' ; 4 slice with a step; 5 list
mode 1: number of axes of the array"""
import sys, json, time, os, itertools, types, numbers
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pysym as P, z3, numpy as np
REPO = os.environ.get('Z5_REPO', '/repo')
out, seconds, mode, nd, kinds = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), [int(x) for x in sys.argv[5:]]

class Impl:
    def __init__(s, shape): s.shape = shape; s.dtype = 'uint8'; s.is_zarr = True
class Rec(types.ModuleType):
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return lambda *a, **k: None
    def get_available_codecs(s): import collections; return collections.defaultdict(lambda: True)
    def read_subarray(s, impl, arr, begin, n_threads=1): s.log.append(('read', arr, tuple(begin)))
    def write_subarray(s, impl, arr, begin, n_threads=1): s.log.append(('write', arr, tuple(begin)))
    def write_scalar(s, impl, begin, shape, item, dtype, n_threads=1): s.log.append(('scalar', item, tuple(begin), tuple(shape)))
def prodS(sh):
    r = 1
    for x in sh: r = x * r
    return r
class FArr:
    """an array of symbolic shape; 'origin' is the array whose elements it holds in C order"""
    def __init__(s, shape, origin=None, log=()): s.shape = tuple(shape); s.origin = s if origin is None else origin; s.log = log
    ndim = property(lambda s: len(s.shape)); size = property(lambda s: prodS(s.shape)); dtype = np.dtype('uint8')
    def __len__(s): return s.shape[0]
    def reshape(s, *sh, order='C'):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = tuple(sh[0])
        if order != 'C': raise P.Inconclusive('reshape order')
        # numpy refuses a different number of elements; the shapes are compared up to ones so that no product is needed
        a, b = [x for x in s.shape if not x == 1], [x for x in sh if not x == 1]
        if len(a) == len(b) and all(x == y for x, y in zip(a, b)): return FArr(sh, s.origin)
        if any(x == 0 for x in s.shape):
            if any(x == 0 for x in sh): return FArr(sh, s.origin)
            raise ValueError('cannot reshape')
        if not P.CTX.decide(P.num(prodS(s.shape)) == P.num(prodS(sh))): raise ValueError('cannot reshape')
        return FArr(sh, s.origin, ('rearranged',))
    def squeeze(s, axis=None):
        ax = range(len(s.shape)) if axis is None else [axis] if isinstance(axis, int) else list(axis)
        if axis is None: ax = [d for d in ax if s.shape[d] == 1]
        for d in ax:
            if not s.shape[d] == 1: raise ValueError('cannot squeeze')
        return FArr([x for d, x in enumerate(s.shape) if d not in ax and d - len(s.shape) not in ax], s.origin)
    def flatten(s, order='C'): return FArr((s.size,), s.origin)
    ravel = flatten
    def item(s, *a): return FElem(s)
    def __getitem__(s, i):
        if i == 0 or i == () or i == (0,) * len(s.shape): return FElem(s)
        raise P.Inconclusive('element access')
    def copy(s, order='C'): return FArr(s.shape, s.origin)
    def astype(s, *a, **k): return FArr(s.shape, s.origin)
class FElem:
    def __init__(s, a): s.a = a; s.shape = ()
class FNp:
    def __getattr__(s, n): return getattr(np, n)
    def empty(s, shape, dtype=None, **k): return FArr(shape if isinstance(shape, (tuple, list)) else (shape,))
    zeros = empty
    def asarray(s, a, dtype=None, order=None, **k): return a if isinstance(a, FArr) else np.asarray(a, dtype, order)
    array = ascontiguousarray = require = asarray
    def reshape(s, a, sh, order='C'): return a.reshape(sh, order=order)
    def squeeze(s, a, axis=None): return a.squeeze(axis)
    def prod(s, x, **k): return prodS(x)
    def ndim(s, a): return len(a.shape)
    def isscalar(s, a): return False if isinstance(a, FArr) else np.isscalar(a)

def load(sym):
    rec = Rec('_z5py'); m = P.load(REPO, 'dataset', {'_z5py': rec}, sym)
    if sym:
        for k, mod in list(sys.modules.items()):
            if k.startswith('z5py.') and 'np' in mod.__dict__: mod.__dict__['np'] = FNp()
    return m, rec
def dataset(m, shape):
    ds = m.Dataset.__new__(m.Dataset); ds._impl = Impl(shape); ds.n_threads = 1
    return ds

def build(val, SL, size):
    """index from the item kinds; val(name) yields integers. Returns (index, items)"""
    items = []
    for k in kinds:
        if k == 0: items.append(('i', val('index')))
        elif k in (1, 4):
            w = val('which'); lo = None if w & 1 else val('start'); hi = None if w & 2 else val('stop'); st = val('step') if k == 4 else (1 if w & 4 else None); items.append(('s', lo, hi, st))
        elif k == 2: items.append(('e',))
        elif k == 3: items.append(('s', None, None, None))
        else: items.append(('l',))
    idx = [x[1] if x[0] == 'i' else SL(*x[1:]) if x[0] == 's' else Ellipsis if x[0] == 'e' else [0] for x in items]
    w = val('tuple') if len(idx) == 1 else 1
    return (tuple(idx) if w else idx[0]), items
def expand(items, nd):
    """the numpy rules: None if the expression is not supported"""
    n = sum(1 for x in items if x[0] == 'e'); k = len(items) - n
    if n > 1 or k > nd or any(x[0] == 'l' for x in items): return None
    r = []
    if n == 0: items = items + [('e',)]
    for x in items: r += [('s', None, None, None)] * (nd - k) if x[0] == 'e' else [x]
    return r

def symbolic(c):
    P.CTX = c; m, rec = load(True) if not hasattr(symbolic, 'm') else symbolic.m; symbolic.m = (m, rec); rec.log = []
    def val(n):
        if n == 'which': v = c.sym(n); c.assume(z3.And(v.v >= 0, v.v < 8)); return v._conc()
        if n == 'tuple': v = c.sym(n); c.assume(z3.And(v.v >= 0, v.v < 2)); return v._conc()
        v = c.sym(n)
        return v
    shape = tuple(c.sym('shape') for _ in range(nd))
    for x in shape: c.assume(z3.And(x.v >= 1, x.v < 2**63))
    ds = dataset(m, shape)
    if mode == 1: return assign(c, ds, rec, val, shape)
    an = kinds.pop(0) if mode == 3 and not hasattr(symbolic, 'an') else getattr(symbolic, 'an', 0); symbolic.an = an
    idx, items = build(val, P.SSlice, shape); res = None; err = None
    ashape = tuple(c.sym('array') for _ in range(an))
    for x in ashape: c.assume(z3.And(x.v >= 0, x.v < 2**40))
    scalar = 3 if mode == 2 else FArr(ashape)
    try:
        if mode == 0: res = ds[idx]
        else: ds[idx] = scalar
    except (P.PathEnd, P.Violation, P.Inconclusive): raise
    except Exception as e: err = e
    full = expand(items, nd)
    if full is None: c.check(err is not None, 'an index expression that is not supported is refused'); c.cover('refused'); return
    bad = z3.BoolVal(False); off = []; ext = []; drop = []; lowest = z3.BoolVal(False)
    for d, (x, n) in enumerate(zip(full, shape)):
        N = n.v
        if x[0] == 'i': bad = z3.Or(bad, x[1].v >= N, x[1].v < -N); off.append(z3.If(x[1].v < 0, x[1].v + N, x[1].v)); ext.append(z3.IntVal(1)); drop.append(d)
        else:
            def fix(v, dflt):
                if v is None: return dflt
                v = P.num(v); return z3.If(v < 0, z3.If(v + N < 0, 0, v + N), z3.If(v > N, N, v))
            a, b = fix(x[1], z3.IntVal(0)), fix(x[2], N); e = z3.If(b > a, b - a, 0)
            if x[1] is not None: e = z3.If(P.num(x[1]) < -N, 0, e)      # as in h5py, and as the tests ask: a start before the first element selects nothing
            if x[3] is not None and not (isinstance(x[3], int) and x[3] == 1): bad = z3.Or(bad, P.num(x[3]) != 1)
            off.append(a); ext.append(e)
    if mode == 3:
        empty = z3.Or(*[e == 0 for e in ext])
        if err is None: c.check(z3.Not(bad), 'an index that is out of range or has a step is refused')
        elif c.decide(bad): c.cover('refused'); return
        if c.decide(empty): c.check(not rec.log, 'nothing is stored in an empty region'); c.cover('empty'); return
        return judge(c, rec, scalar, err, ext, [x.v for x in ashape], off)
    if err is not None:
        c.check(bad, 'a valid index expression is accepted'); c.cover('refused'); return
    c.check(z3.Not(bad), 'an index that is out of range or has a step is refused')
    empty = z3.Or(*[e == 0 for e in ext])
    want = lambda begin, shp, msg: (c.check(len(begin) == nd and len(shp) == nd, msg), [c.check(z3.And(P.num(begin[d]) == off[d], P.num(shp[d]) == ext[d]), msg) for d in range(nd)])
    if mode == 0:
        if isinstance(res, FElem): c.check(len(drop) == nd and isinstance(res.a, FArr), 'integer-indexed axes are dropped, and no others'); arr = res.a.origin
        else:
            keep = [ext[d] for d in range(nd) if d not in drop]; c.check(isinstance(res, FArr) and len(res.shape) == len(keep) and len(drop) < nd, 'integer-indexed axes are dropped, and no others')
            c.check(z3.And(*[P.num(s) == k for s, k in zip(res.shape, keep)]), 'the result has the shape numpy would give it'); arr = res.origin
        reads = [x for x in rec.log if x[0] == 'read']
        if not reads: c.check(empty, 'a selection that is not empty is read'); c.cover('empty'); return
        c.check(len(reads) == 1 and len(rec.log) == 1 and reads[0][1].origin is arr, 'the selected region is read into the result'); want(reads[0][2], reads[0][1].shape, 'the region read is the one numpy would select'); c.cover('region')
    else:
        if not rec.log: c.check(empty, 'a selection that is not empty is written'); c.cover('empty'); return
        c.check(len(rec.log) == 1 and rec.log[0][0] == 'scalar' and rec.log[0][1] == scalar, 'the scalar is written once'); want(rec.log[0][2], rec.log[0][3], 'the region written is the one numpy would select'); c.cover('region')

def assign(c, ds, rec, val, shape):
    an = kinds[0]; ashape = tuple(c.sym('array') for _ in range(an))
    for x in ashape: c.assume(z3.And(x.v >= 0, x.v < 2**40))
    a = FArr(ashape); err = None
    try: ds[...] = a
    except (P.PathEnd, P.Violation, P.Inconclusive): raise
    except Exception as e: err = e
    judge(c, rec, a, err, [x.v for x in shape], [x.v for x in ashape], [z3.IntVal(0)] * nd)
def judge(c, rec, a, err, ex, ar, off):
    an = len(ar)
    # equal up to axes of length one, at the front and at the end only, or anywhere
    alts = []; anyw = []
    for n in range(0, min(nd, an) + 1):
        for i in range(nd - n + 1):
            for j in range(an - n + 1):
                alts.append(z3.And(*([ex[i + k] == ar[j + k] for k in range(n)] + [ex[k] == 1 for k in range(nd) if not i <= k < i + n] + [ar[k] == 1 for k in range(an) if not j <= k < j + n])))
        for s in itertools.combinations(range(nd), n):
            for t in itertools.combinations(range(an), n):
                anyw.append(z3.And(*([ex[i] == ar[j] for i, j in zip(s, t)] + [ex[k] == 1 for k in range(nd) if k not in s] + [ar[k] == 1 for k in range(an) if k not in t])))
    if err is not None: c.check(z3.Not(z3.Or(*alts)), 'an array whose shape differs from the region\'s by leading and trailing axes of length one only is accepted'); c.cover('refused'); return
    c.check(z3.Or(*anyw), 'an array whose shape differs from the region\'s by more than axes of length one is refused')
    c.check(len(rec.log) == 1 and rec.log[0][0] == 'write', 'the array is written once'); w = rec.log[0]
    c.check(isinstance(w[1], FArr) and w[1].origin is a and 'rearranged' not in w[1].log, 'the elements keep their order')
    c.check(len(w[1].shape) == nd and len(w[2]) == nd, 'the array written has the shape of the region'); c.check(z3.And(*[z3.And(P.num(w[1].shape[d]) == ex[d], P.num(w[2][d]) == off[d]) for d in range(nd)]), 'the array written has the shape of the region'); c.cover('stored')

def concrete(inputs):
    """the same on the real modules, real numpy and plain integers; returns the list of complaints, or None if it cannot be run"""
    m, rec = load(False); rec.log = []; it = iter(inputs); val = lambda n: next(it)[1]; bad = []
    shape = tuple(val('shape') for _ in range(nd)); ds = dataset(m, shape)
    type(ds)._dtype_dict  # the real class
    if mode == 1:
        ashape = tuple(val('array') for _ in range(kinds[0]))
        if np.prod([float(x) for x in ashape] or [1]) > 1e7 or np.prod([float(x) for x in shape]) > 1e7: return None
        a = np.arange(int(np.prod(ashape, dtype=int)), dtype='uint8').reshape(ashape); err = None
        try: ds[...] = a
        except Exception as e: err = e
        def core(s):
            s = list(s)
            while s and s[0] == 1: s.pop(0)
            while s and s[-1] == 1: s.pop()
            return s
        if err: return ['refused: %r' % err] if core(ashape) == core(shape) else []
        if [x for x in ashape if x != 1] != [x for x in shape if x != 1]: return ['accepted %s for %s' % (ashape, shape)]
        if len(rec.log) != 1 or rec.log[0][1].shape != shape or list(rec.log[0][1].ravel()) != list(a.ravel()) or list(rec.log[0][2]) != [0] * nd: return ['stored otherwise']
        return []
    idx, items = build(val, slice, shape); err = None; res = None
    class Big(Exception): pass
    tot = 1.0
    for x in shape: tot *= x
    if tot > 1e7: return None
    try:
        if mode == 0: res = ds[idx]
        elif mode == 2: ds[idx] = 3
        else:
            ashape = tuple(val('array') for _ in range(symbolic.an))
            if np.prod([float(x) for x in ashape] or [1]) > 1e7: return None
            a = np.arange(int(np.prod(ashape, dtype=int)), dtype='uint8').reshape(ashape); ds[idx] = a
    except Exception as e: err = e
    full = expand(items, nd)
    if full is None: return [] if err else ['accepted an unsupported expression']
    ref = np.arange(int(tot)).reshape(shape); low = any(x[0] == 's' and x[1] is not None and x[1] < -n for x, n in zip(full, shape))
    step = any(x[0] == 's' and x[3] not in (None, 1) for x in full)
    try: e = ref[tuple(x[1] if x[0] == 'i' else slice(*x[1:]) for x in full)]
    except Exception as ex: return [] if err else ['accepted %r' % (idx,)]
    if step: return [] if err else ['accepted a step']
    if mode == 3:
        r = []
        for x, n in zip(full, shape): r.append((x[1] % n, 1) if x[0] == 'i' else (0, 0) if x[1] is not None and x[1] < -n else (range(n)[slice(*x[1:])].start, len(range(n)[slice(*x[1:])])))
        es = tuple(b for _, b in r)
        if 0 in es: return [] if not rec.log and not err else ['something stored in an empty region, or refused']
        same = [x for x in es if x != 1] == [x for x in ashape if x != 1]
        if err: return []
        if not same or rec.log[0][1].shape != es or list(rec.log[0][2]) != [x for x, _ in r] or list(rec.log[0][1].ravel()) != list(a.ravel()): return ['stored otherwise']
        return []
    if err: return ['refused %r on %s: %r' % (idx, shape, err)]
    if low: e = np.empty(tuple(0 if x[0] == 's' and x[1] is not None and x[1] < -n else len(range(n)[slice(*x[1:])]) for x, n in zip(full, shape) if x[0] != 'i'))
    if mode == 0 and np.shape(res) != np.shape(e): return ['%r on %s gives %s instead of %s' % (idx, shape, np.shape(res), np.shape(e))]
    if e.size == 0: return [] if not rec.log else ['something was accessed']
    if len(rec.log) != 1: return ['nothing accessed']
    o = rec.log[0][2]; s = rec.log[0][1].shape if mode == 0 else rec.log[0][3]
    try: sel = ref[tuple(slice(a, a + b) for a, b in zip(o, s))] if all(a >= 0 for a in o) else None
    except Exception as ex: sel = None
    if sel is None or sel.size != e.size or list(sel.ravel()) != list(np.ravel(e)): return ['%r on %s accesses offset %s extent %s' % (idx, shape, o, s)]
    return []

c = P.Ctx(seconds); r = dict(status=0, inconclusive=[], violations=[])
try: c.run(symbolic, 3)
except P.Inconclusive as e: r['status'] = 2; r['inconclusive'].append(str(e))
except Exception as e:
    import traceback; r['status'] = 2; r['inconclusive'].append(traceback.format_exc()[-700:])
seen = set(); validated = 0; samples = []
for msg, inp in c.violations:
    bad = concrete(inp); r['violations'].append(dict(kind='assertion', msg=msg, where='z5py.Dataset ' + ('__getitem__' if mode == 0 else '__setitem__'), inputs=[(n, 64, v) for n, v in inp], confirmed=bool(bad), text='replayed on the real modules: %s' % bad, uninit=False)); r['status'] = 1
for inp in c.samples:
    bad = concrete(inp)
    if bad: r['status'] = 2 if not c.violations else 1; r['inconclusive'].append('path model replayed differently: %s %s' % (inp, bad))
    elif bad is not None: validated += 1; samples.append(dict(job=' '.join(sys.argv[3:]), inputs=inp, native='agrees'))
r.update(paths=c.paths, forks=c.forks, queries=c.queries, solver_s=c.solver_s, checks=c.checks, checks_solver=c.checks_solver, covers=c.covers, wall_s=time.time() - c.t0, validated=validated, samples=samples, instructions=0,
    functions=['z5py.dataset.Dataset.__getitem__', 'z5py.dataset.Dataset.__setitem__', 'z5py.dataset.Dataset.index_to_roi', 'z5py.shape_utils.normalize_slices', 'z5py.shape_utils.slice_to_start_stop', 'z5py.shape_utils.int_to_start_stop', 'z5py.shape_utils.rectify_shape'])
json.dump(r, open(out, 'w'))

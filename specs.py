"""What each property's check runs: harnesses, parameters and the bounds they stand for."""
class J:
    def __init__(self, harness, params, bounds, covers=(), flags=(), defs=(), tier='q', time=600, samples=2, cost=1, kind='cpp', threads=False):
        self.harness, self.params, self.bounds, self.covers, self.flags, self.defs, self.tier, self.time, self.samples, self.cost, self.kind, self.threads = harness, list(params), bounds, list(covers), list(flags), list(defs), tier, time, samples, cost, kind, threads
    def name(self): return self.harness + '(' + ','.join(map(str, self.params)) + ')'
INT = ['--int-first']
PROPS = {}
NBTXT = '19 chunk lengths from 1 to 2^62-1 (powers of two, their neighbours, primes)'
PROPS['C03'] = dict(bounds='one axis symbolic at each axis position of 1- to 5-d grids; extent 1..2^63-1 symbolic, chunk length one of ' + NBTXT + '; additionally chunk length 1..63 fully symbolic with extents 1..4095',
    outside='extents of 2^63 and more; chunk lengths not in the list combined with extents above 4095',
    jobs=[J('h_blocking', [0, nd, ax, 0], '%d-d, axis %d, 64-bit extent' % (nd, ax), ['geometry'], INT) for nd, ax in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 0), (4, 1), (4, 3), (5, 0), (5, 2), (5, 4))] + [J('h_blocking', [0, 1, 0, 1], 'symbolic chunk length', ['geometry'], INT)])
PROPS['C02'] = dict(bounds='overlap triple: extent/offset/size 1..2^63-1 symbolic, chunk length one of ' + NBTXT + '; list of touched chunks: up to 4 chunks in 1-d, 3 per axis in 2-d, 2 per axis in 3-d',
    outside='regions touching more chunks than stated (the list is a product of per-axis ranges)',
    jobs=[J('h_blocking', [1, nd, ax, 0], '%d-d, axis %d' % (nd, ax), ['overlap'], INT) for nd, ax in ((1, 0), (2, 1), (3, 0))] + [J('h_blocking', [2, 1, 4, 1], '1-d', ['touched'], INT), J('h_blocking', [2, 2, 3, 1], '2-d', ['touched'], INT), J('h_blocking', [2, 3, 2, 1], '3-d', ['touched'], INT)])
PROPS['C04'] = dict(bounds='1- to 4-d grids; outermost extent 1..2^40 symbolic, inner grid extents from a list up to 2^20+1', outside='grids with other inner extents',
    jobs=[J('h_blocking', [3, nd], '%d-d numbering' % nd, ['numbering'], INT) for nd in (1, 2, 3, 4)] + [J('h_blocking', [4, nd, k], '%d-d listing, up to %d per axis' % (nd, k), ['grid'], INT) for nd, k in ((1, 4), (2, 3), (3, 3))])

# ---- region I/O
FMTS = {0: 'zarr v2 "."', 1: 'n5', 2: 'zarr v3', 3: 'zarr v3 sharded', 4: 'zarr v2 "/"', 5: 'zarr v3 with v2 keys', 6: 'zarr v3 sharded, shards laid out in another order'}
CFGS = {0: '(5)/2', 1: '(3,3)/(2,2)', 2: '(2,3,2)/(1,2,2)', 3: '(4)/4', 4: '(4,2)/(2,1)', 5: '(3)/5', 6: '(7)/3', 7: '(2,5)/(2,2)', 8: '(3,4)/(3,3)', 9: '(2,2,3)/(2,2,2)', 10: '(2,2,2,2)/(1,2,1,2)', 11: '(4)/2', 12: '(3,2)/(1,2)', 13: '(3)/2', 14: '(2)/2', 15: '(2,3)/(2,2)', 16: '(6,2)/(2,2)', 17: '(1,1,1,1,1)/1'}
DT = ['uint8', 'uint16', 'int32', 'uint64', 'float32', 'float64', 'int8', 'int16', 'uint32', 'int64', 'complex64']
OPS = {0: 'read', 1: 'write', 2: 'write scalar', 3: 'write twice', 4: 'read with a damaged chunk', 5: 'partial write with a damaged chunk'}
KINDS = {1: 'blosc', 2: 'zlib', 3: 'gzip', 4: 'bzip2', 5: 'lz4', 6: 'xz', 7: 'zstd'}
LIBS = ['-DWITH_BLOSC', '-DWITH_ZLIB', '-DWITH_LIBDEFLATE', '-DWITH_BZIP2', '-DWITH_XZ', '-DWITH_LZ4', '-DWITH_ZSTD']
STOCK = [x for x in LIBS if 'LIBDEFLATE' not in x]
def codec(k): return LIBS + ['-DIO_CODEC=%d' % k]
def io(op, fmt, c, dt, fl=0, fill=7, codec_=0, **k):
    if codec_: k['defs'] = codec(codec_)
    return J('h_io', [op, fmt, c, dt, fl, fill], (KINDS[codec_] + ', ' if codec_ else '') + '%s, %s, shape/chunk %s, %s, fill %s%s%s%s' % (OPS[op], FMTS[fmt], CFGS[c], DT[dt], fill, ', padding arbitrary' if fl & 1 else '', ', values other than fill' if fl & 2 else '', ', all chunks stored' if fl & 4 else ''), ['read' if op in (0, 4) else 'write'], **k)
IOB = 'stored state arbitrary (every subset of chunks stored, every stored byte symbolic), then the operation on every region (offset and extent per axis) of small datasets with 1 to 5 axes, all element bits symbolic, raw codec (and gzip, blosc or zstd with the library modelled by its contract); integers, floats and 64-bit complex (zarr v2, fill values without imaginary part): '
IOO = 'larger datasets, more axes, codecs other than those stated (see C20), several threads (see C22); operation sequences longer than two are covered only through the arbitrary stored state'
PROPS['C01'] = dict(bounds=IOB + 'grids of up to 9 chunks', outside=IOO, jobs=
    [io(0, f, c, d) for f, c, d in ((0, 0, 1), (1, 0, 1), (2, 0, 2), (0, 1, 0), (1, 1, 2), (2, 2, 0), (1, 2, 1), (4, 3, 3), (5, 4, 4), (1, 5, 3), (0, 5, 0), (1, 17, 0), (2, 12, 5))] +
    [io(1, f, c, d) for f, c, d in ((0, 0, 1), (1, 0, 1), (2, 0, 2), (4, 4, 3), (5, 13, 4), (1, 5, 5), (0, 5, 7), (1, 14, 6), (2, 14, 8), (0, 3, 9))] +
    [io(0, 0, 0, 10, 0, 3), io(1, 0, 13, 10), io(1, 0, 11, 10, 2)] +
    [io(1, f, c, d, 2) for f, c, d in ((0, 1, 0), (1, 1, 2), (2, 2, 1), (1, 2, 3), (1, 12, 9))] +
    [io(3, f, c, d, 2) for f, c, d in ((0, 13, 0), (1, 13, 1))] + [io(o, f, c, 1, codec_=3) for o, f, c in ((0, 1, 0), (1, 1, 13), (0, 0, 0), (1, 2, 13))] +
    [io(o, f, c, d, fl, tier='t') for o in (0, 1) for f in (0, 1, 2, 4) for c in (6, 7, 8, 9, 10, 16) for d, fl in ((0, 2), (2, 6))] + [io(3, f, c, d, 2, tier='t') for f in (0, 1, 2) for c in (0, 1, 4) for d in (1,)])
PROPS['C30'] = dict(bounds=IOB + 'up to 3 shards of up to 4 inner chunks, shard files laid out in grid order and (format 6) in reverse order with unused bytes between', outside=IOO, jobs=
    [io(0, f, c, d) for f, c, d in ((3, 0, 1), (6, 0, 1), (3, 1, 0), (6, 4, 2), (3, 5, 3), (6, 12, 0), (3, 2, 0))] +
    [io(1, f, c, d) for f, c, d in ((3, 13, 1), (6, 13, 2), (3, 11, 0), (3, 14, 4), (6, 5, 6))] +
    [io(1, f, c, d, 2) for f, c, d in ((3, 0, 1), (6, 0, 0), (3, 1, 0), (6, 4, 0), (3, 12, 1), (3, 15, 0))] + [io(3, 3, 13, 0, 2)] + [io(o, f, c, 1, 2, codec_=1) for o, f, c in ((0, 3, 0), (1, 6, 13), (1, 3, 11))] +
    [io(o, f, c, d, 2, tier='t') for o in (0, 1) for f in (3, 6) for c in (2, 6, 7, 8, 9, 10, 16) for d in (0, 2)])
PROPS['C29'] = dict(bounds=IOB + 'scalar symbolic; final content and stored representation compared with writing the constant array', outside=IOO, jobs=
    [io(2, f, c, d) for f, c, d in ((0, 0, 1), (1, 0, 1), (2, 0, 2), (3, 13, 1), (6, 13, 0), (4, 4, 3), (5, 13, 4), (1, 5, 5), (0, 1, 0), (1, 1, 2), (1, 12, 6), (3, 14, 7), (2, 14, 8), (0, 3, 9))] +
    [io(2, f, c, d, 2) for f, c, d in ((3, 0, 1), (3, 1, 0), (6, 4, 0), (2, 2, 0), (1, 2, 0))] +
    [io(2, f, c, d, 2, tier='t') for f in (0, 1, 2, 3) for c in (6, 7, 8, 9, 10, 16) for d in (1,)])
PROPS['C15'] = dict(bounds='every subset of chunks stored, stored and written bytes fully symbolic (so every mixture of fill and other values), fill values 0, 1, 7, 200, -3, NaN, -0.0 and extremes', outside=IOO, jobs=
    [io(0, f, c, d, 8, v) for f, c, d, v in ((0, 0, 1, 7), (2, 0, 2, -3), (3, 0, 0, 200), (0, 0, 4, 1000), (2, 13, 5, 1000), (0, 13, 5, 1001), (2, 13, 4, 1002), (0, 13, 5, 1003), (3, 13, 4, 1000), (0, 13, 3, 1004), (2, 13, 9, 1005), (0, 13, 7, 1005), (2, 13, 8, 1004), (4, 13, 6, -128), (1, 0, 2, 0), (6, 13, 5, 1006), (0, 13, 4, 1006), (5, 13, 1, 1004))] +
    [io(1, f, c, d, 8, v) for f, c, d, v in ((0, 13, 1, 7), (1, 13, 2, 0), (2, 13, 2, -3), (3, 13, 0, 200), (0, 14, 4, 1000), (2, 14, 5, 1000), (0, 14, 5, 1001), (2, 14, 4, 1002), (3, 14, 5, 1000), (0, 14, 3, 1004), (2, 14, 9, 1005), (6, 14, 8, 1), (1, 14, 5, 0))] +
    [io(2, f, c, d, 8, v) for f, c, d, v in ((0, 13, 1, 7), (1, 13, 2, 0), (3, 13, 0, 200), (2, 14, 4, 1000))])
def vw(op, nd, dt, mx, cov, **k): return J('h_views', [op, nd, dt, mx], '%s, %d-d, %s, extents up to %d, six layouts (C, Fortran, strided, gaps, swapped)' % (cov, nd, DT[dt], mx), [cov], **k)
PROPS['C05'] = dict(bounds='source and destination layouts chosen independently from six kinds per rank, 1 to 4 axes with extents up to 4, all element bits symbolic; every byte of the destination buffer outside the view must stay as it was; strides of 2^32 elements and more on mapped memory', outside='larger extents; negative strides (the views take unsigned strides)', jobs=
    [vw(0, 1, 0, 4, 'copy'), vw(0, 2, 1, 3, 'copy'), vw(0, 3, 2, 2, 'copy'), vw(0, 4, 0, 2, 'copy'), vw(1, 1, 3, 4, 'fill'), vw(1, 2, 4, 3, 'fill'), vw(1, 3, 0, 2, 'fill'), vw(2, 1, 0, 3, 'subview'), vw(2, 2, 2, 3, 'subview'), vw(2, 3, 0, 2, 'subview'), vw(3, 2, 0, 2, 'far')] +
    [vw(0, 2, 5, 4, 'copy', tier='t'), vw(0, 3, 1, 3, 'copy', tier='t'), vw(1, 4, 0, 3, 'fill', tier='t')])
ROPS = ['read region', 'write region', 'write scalar', 'read chunk', 'write chunk']
def rf(op, fmt, c, kind, ax=0, **k): return J('h_refuse', [op, fmt, c, kind, ax], '%s, %s, shape/chunk %s, %s' % (ROPS[op], FMTS[fmt], CFGS[c], ['any 64-bit offset and extent on axis %d outside the dataset' % ax if op < 3 else 'indices at and beyond the grid on axis %d' % ax, 'every other number of dimensions up to rank + 3', 'offset and extent around 0, the shape, 2^31, 2^32, 2^63, 2^64 on axis %d' % ax][kind]), ['refused'], OPQ, **k)
OPQ = ['--opaque-numbers']
PROPS['C06'] = dict(bounds='the out-of-range axis takes every 64-bit offset and extent (other axes every in-range value); every dimensionality from 0 to rank+3; chunk indices at and beyond the grid up to 2^64-1; before the request every second chunk is stored', outside='more than one axis out of range at once; datasets larger than the listed ones',
    jobs=[rf(o, f, c, k, a) for o in (0, 1, 2) for f, c, k, a in ((0, 0, 0, 0), (1, 1, 0, 1), (3, 1, 0, 0), (2, 2, 2, 2), (0, 1, 2, 0), (1, 12, 0, 0))] + [rf(o, f, c, 1) for o in (0, 1) for f, c in ((0, 1), (1, 2), (3, 1))] +
    [rf(o, f, c, k, a) for o in (3, 4) for f, c, k, a in ((0, 0, 0, 0), (1, 1, 0, 1), (2, 2, 0, 1), (3, 1, 0, 0), (3, 1, 0, 1), (6, 4, 0, 0), (4, 1, 0, 1), (0, 1, 1, 0), (1, 1, 1, 0), (3, 1, 1, 0))])
CV = ['write', 'remove', 'varlen', 'query']
def ch(v, f, c, d, **k): return J('h_chunk', [v, f, c, d], '%s one chunk, %s, shape/chunk %s, %s' % (CV[v], FMTS[f], CFGS[c], DT[d]), [CV[v]], OPQ, **k)
PROPS['C31'] = dict(bounds='every subset of chunks stored with arbitrary bytes, then a single-chunk operation at every chunk index: write (every content, so fill-only and mixed), overwrite with fill, remove, read, existence/shape/size/variable-length queries, variable-length write of 0 to 5 elements; all element bits symbolic; raw codec', outside='larger grids and chunks; compressing codecs (C20)',
    jobs=[ch(v, f, c, d) for v in (0, 1, 3) for f, c, d in ((0, 1, 0), (1, 1, 1), (2, 0, 2), (3, 1, 0), (6, 4, 1), (4, 12, 3), (5, 5, 4), (3, 5, 5), (1, 12, 4), (3, 2, 0))] + [ch(2, f, c, d) for f, c, d in ((1, 0, 1), (1, 1, 0), (1, 2, 3), (1, 12, 5), (0, 0, 1), (2, 0, 1), (3, 0, 1))])
PROPS['C14'] = dict(bounds='sharded datasets of up to 3 shards of up to 4 inner chunks, every subset of inner chunks stored with arbitrary bytes, shard files laid out in grid order and in reverse order with unused bytes between; then write, overwrite with fill or remove one inner chunk', outside='larger shards; compressing codecs',
    jobs=[ch(v, f, c, d) for v in (0, 1) for f, c, d in ((3, 0, 1), (3, 1, 0), (3, 2, 0), (3, 4, 3), (3, 5, 4), (3, 12, 2), (6, 0, 0), (6, 1, 1), (6, 4, 5), (6, 12, 9), (6, 15, 0))])
CO = ['read everything', 'chunk read sized by the queries', 'header queries', 'write one element', 'write one element (scalar)', 'read the chunk']
def co(o, f, c, d, L, lo=0, **k): return J('h_corrupt', [o, f, c, d, L, lo], '%s: chunk file of %d to %d arbitrary bytes, %s, shape/chunk %s, %s' % (CO[o], lo, L, FMTS[f], CFGS[c], DT[d]), ['accepted'], OPQ, **k)
PROPS['C09'] = dict(bounds='one chunk file of every length up to header + full chunk + 1 byte (at most 29) with every byte symbolic, at every chunk index, the other chunks stored intact; region read, chunk read through buffers sized like the Python layer does, header queries, partial writes; 1 to 3 axes', outside='longer files; compressing codecs (C20)',
    jobs=[co(o, 1, c, d, L, lo) for o in range(6) for c, d, L, lo in ((0, 1, 17, 0), (1, 0, 21, 0), (12, 0, 19, 8), (13, 2, 21, 6), (0, 4, 21, 4), (2, 0, 25, 14))])
PROPS['C28'] = dict(bounds='raw codec: one chunk file of every length from 0 to twice the chunk, every byte symbolic, at every chunk index, the other chunks stored intact; region read (whole dataset, so buffers hold other chunks, and the chunk alone), chunk read, partial writes; blosc, zlib, gzip, zstd: truncated streams, streams of one element or byte more or less, other bytes', outside='longer files',
    jobs=[co(o, f, c, d, L) for o in (0, 1, 3, 4, 5) for f, c, d, L in ((0, 0, 1, 9), (2, 1, 0, 9), (4, 1, 2, 32), (5, 5, 3, 80), (2, 2, 0, 9), (0, 13, 4, 17))] +
    [io(o, f, c, d, 0, codec_=k) for k, f in ((1, 0), (2, 4), (3, 2), (7, 2)) for o, c, d in ((4, 0, 1), (5, 13, 2))])
# ---- threads
def par(v, pre, sp, nt, n, **k): return J('h_par', [v, pre, sp, nt, n], '%s, %d threads asked for, %d items, up to %d preemptions and %d spurious wake-ups' % (['parallel_foreach(n threads)', 'two loops on one pool', 'input-iterator range', 'forward-iterator range', 'tasks enqueued, pool destroyed with or without waiting', 'two threads waiting for one pool', 'two threads enqueueing'][v], nt, n, pre, sp), ['done'], threads=True, **k)
PROPS['C21'] = dict(bounds='up to 3 worker threads plus the caller, up to 3 items, every schedule with up to 2 preemptive switches (switches where a thread blocks, ends or is woken are not limited) and up to 1 spurious wake-up; which items throw and the items\' values are symbolic', outside='more threads, items or preemptions; weak-memory reorderings (accesses that are not ordered by happens-before are reported as races instead)',
    jobs=[par(0, 2, 0, 2, 2, cost=5), par(0, 1, 1, 2, 3, cost=3), par(0, 0, 0, 1, 3), par(0, 0, 0, 0, 3), par(0, 1, 0, -1, 2), par(0, 1, 0, 2, 0), par(0, 1, 0, 3, 2, cost=5), par(1, 1, 0, 2, 2, cost=4), par(2, 1, 0, 2, 3), par(3, 1, 0, 2, 3), par(3, 0, 0, 2, 0), par(4, 1, 1, 2, 2), par(4, 2, 0, 2, 2, cost=3), par(4, 0, 0, 0, 2), par(5, 1, 0, 2, 1), par(5, 1, 1, 2, 2, cost=3), par(6, 1, 0, 2, 2, cost=2)] +
    [par(0, 2, 0, 2, 3, tier='t', time=1500), par(0, 1, 0, 3, 3, tier='t', time=1500), par(0, 3, 0, 2, 2, tier='t', time=1500), par(4, 2, 0, 3, 3, tier='t', time=1500), par(5, 2, 0, 2, 2, tier='t', time=1500), par(6, 2, 0, 2, 2, tier='t', time=1500)])
# ---- n5 encoding
def n5(v, nd, vl, dt=0, n=0, **k): return J('h_n5', [v, nd, vl, dt, n], [f'header of {nd} axes, extents and count any 32-bit value', f'payload of {n} {DT[dt]}', f'an extent or count of 2^32 and more, {nd} axes'][v] + (', variable-length' if vl else ''), [['header', 'payload', 'wide'][v]], **k)
PROPS['C08'] = dict(bounds='header writer and reader on 0 to 5 axes with every 32-bit extent and count; payload encoding of every element type (1 to 5 elements, every bit pattern); whole chunks (header, payload, read back) of 1- to 3-d datasets at every chunk index, fixed and variable-length, compared byte by byte with the specification', outside='more axes or elements; compressing codecs (C20)',
    jobs=[n5(0, nd, vl) for nd in (0, 1, 2, 3, 5) for vl in (0, 1)] + [n5(1, 2, dt & 1, dt, 1 + dt % 5) for dt in range(10)] + [n5(2, 1, 1), n5(2, 3, 0)] + [ch(0, 1, c, d) for c, d in ((0, 0), (1, 1), (12, 2), (0, 3), (13, 4), (0, 5), (1, 6), (2, 7), (5, 8), (13, 9))] + [ch(2, 1, c, d) for c, d in ((0, 2), (1, 3), (0, 4), (12, 9))])
# ---- shards
def shd(v, *p, **k): return J('h_shard', [v] + list(p), '%s %s' % (['shard built and parsed back: slots, largest chunk =', 'arbitrary shard file: slots, smallest and largest file, checksum mode =', 'dataset on an arbitrary shard file: op, config, data bytes, bytes missing =', 'numbering: axes, symbolic axis ='][v], p), k.pop('covers'), k.pop('flags', OPQ), **k)
PROPS['C10'] = dict(bounds='every presence pattern and every length 0..L of each chunk and every byte for 1 slot (L = 3), 2 slots (L = 2), 3 and 4 slots (L = 1); shards written by datasets of up to 3 shards', outside='more slots, longer chunks', jobs=
    [shd(0, n, L, covers=['roundtrip']) for n, L in ((0, 0), (1, 3), (2, 2), (3, 1), (4, 1))] + [ch(0, 3, c, d) for c, d in ((0, 1), (1, 0), (12, 2), (2, 0))] + [shd(0, n, L, covers=['roundtrip'], tier='t') for n, L in ((2, 3), (3, 2), (6, 1))])
PROPS['C11'] = dict(bounds='parser: every file of 0 to 38 bytes for 0 to 2 slots, every byte symbolic (64-bit offsets and lengths included), checksum arbitrary or right up to a symbolic difference; dataset operations (region read, chunk read, existence query, partial write, whole-chunk write, removal) on a shard file with arbitrary index and up to 5 data bytes, including files too short for the index', outside='more slots, longer files', jobs=
    [shd(1, 1, 0, 22, 1, covers=['accepted', 'corrupt', 'refused', 'short']), shd(1, 1, 18, 22, 0, covers=['accepted', 'refused', 'short']), shd(1, 2, 36, 38, 1, covers=['accepted', 'corrupt', 'refused']), shd(1, 0, 0, 6, 0, covers=['refused', 'short'])] +
    [shd(2, op, c, d, 0, covers=[] if op == 1 and d == 0 else ['read' if op < 3 else 'written']) for op in range(6) for c, d in ((13, 0), (13, 3), (1, 5 if op < 3 else 4), (12, 3))] + [shd(2, op, 13, 4, 2, covers=['read' if op < 3 else 'written']) for op in range(6)] + [shd(2, op, 13, 3, 5, covers=[]) for op in range(6)] + [shd(2, op, 0, d, 0, covers=['read' if op < 3 else 'written'], tier='t', time=1500) for op in range(6) for d in (3, 6)])
PROPS['C12'] = dict(bounds='one step for every 32-bit state and every byte (complete: longer strings follow by induction over the loop), whole strings of 0 to 100 symbolic bytes, continuation at every split of strings up to 20 bytes, one changed byte at every position of strings up to 40 bytes', outside='strings longer than that are covered by the step only', jobs=
    [J('h_crc', [0, 1], 'step, every state and byte', ['step'], ['--no-lin']), J('h_crc', [0, 1], 'step, every state and byte (linear forms)', ['step'])] + [J('h_crc', [1, n], '%d bytes' % n, ['string']) for n in (0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 64, 68, 100)] + [J('h_crc', [2, n], 'continuation, %d bytes' % n, ['chain']) for n in (1, 3, 8, 13, 20)] + [J('h_crc', [3, n], 'changed byte, %d bytes' % n, ['changed']) for n in (1, 4, 8, 13, 20, 36, 40)])
PROPS['C13'] = dict(bounds='chunk index of one axis any 64-bit value, chunks per shard 1 to 2^32+3 from a list, 1 to 4 axes; in datasets: writes and reads at every chunk index of small grids', outside='other numbers of chunks per shard', jobs=
    [shd(3, nd, ax, covers=['numbering'], flags=INT) for nd, ax in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 0), (4, 2), (4, 3))] + [ch(0, 3, c, d) for c, d in ((0, 0), (1, 1), (2, 0), (12, 2), (15, 0))])
# ---- codecs
def cd(v, k, d, n, fails=0, defs=LIBS, **kw): return J('h_codec', [v, k, d, n, fails], ['encode and decode', 'decode damaged data', 'decode: 64-bit sizes', 'encode: 64-bit sizes'][v] + ', %s%s, %s' % (KINDS[k], '' if defs is LIBS else ' (zlib library)', DT[d]) + (', %d elements, up to %d library failures' % (n, fails) if v < 2 else ''), [['roundtrip'], ['refused', 'size', 'truncated'], ['refused', 'done'], ['done']][v], [] if v > 1 else OPQ, defs=defs, **kw)
PROPS['C20'] = dict(bounds='wrappers: 1, 3 and 6 elements with every value, encoded lengths from the minimum to the documented bound, up to 2 library failures at any call, every prefix of the stored bytes, arbitrary stored strings of up to 19 bytes, destination sizes off by one and more; sizes: every 64-bit element count and stored length with the arguments passed to the library compared with the true ones; datasets: damaged and intact chunks through region reads and writes for every codec', outside='the libraries themselves: their C interfaces are modelled by contract (a decoder given exactly an encoder\'s output returns the input; given anything else it may fail or produce any amount of data up to the buffer size). Encoding of more than 1 MiB by blosc and bzip2',
    jobs=[cd(0, k, d, n, f) for k in KINDS for d, n, f in ((1, 3, 1), (0, 1, 2), (5, 6, 0))] + [cd(0, k, 3, 3, 1, defs=STOCK) for k in (2, 3)] + [cd(1, k, d, n) for k in KINDS for d, n in ((1, 3), (4, 2), (0, 6))] + [cd(1, k, 2, 3, defs=STOCK) for k in (2, 3)] +
    [cd(2, k, d, 1) for k in KINDS for d in (1, 3)] + [cd(2, k, 1, 1, defs=STOCK) for k in (2, 3)] + [cd(3, k, d, 1) for k in (2, 3, 5, 6, 7) for d in (0, 3)] + [cd(3, k, 2, 1, defs=STOCK) for k in (2, 3)] +
    [io(o, f, c, 1, 2, codec_=k) for k, f in ((1, 2), (2, 0), (3, 1), (4, 1), (5, 0), (6, 1), (7, 3)) for o, c in ((4, 0), (5, 13), (1, 13))] +
    [cd(0, k, d, n, f, tier='t') for k in KINDS for d, n, f in ((1, 6, 2), (3, 4, 2))] + [cd(1, k, d, n, tier='t') for k in KINDS for d, n in ((3, 6),)])

# ---- metadata
MV = ['extents', 'one field of another kind', 'one string changed', 'creation arguments', 'options', 'create and open in a store', 'contradicting or incomplete store']
CODN = ['raw', 'blosc', 'zlib', 'gzip', 'bzip2', 'lz4', 'xz', 'zstd']
def md(v, *p, covers=None, **k):
    b = MV[v] + ': '
    if v < 6: b += FMTS[p[0]] + (', %d axes, axis %d, %s, through %s' % (p[1], p[2], DT[p[3]], ['a document', 'creation arguments'][p[4]]) if v == 0 else ', %s, %s' % (['names', 'fill value', 'format version, separator, key encoding'][p[1]], DT[p[2]]) if v == 3 else ', %s, %s' % (CODN[p[1]], DT[p[2]]) + (', fill value no. %d' % p[3] if v == 5 else ''))
    else: b += 'case %d' % p[0]
    return J('h_meta', [v] + list(p), b, covers if covers is not None else [['accepted', 'refused'], ['accepted', 'refused'], ['accepted', 'refused'], ['accepted', 'refused'], ['roundtrip'], ['roundtrip'], ['refused']][v], INT if v == 0 else OPQ if v == 6 else [], defs=LIBS, **k)
PROPS['C16'] = dict(bounds='creation arguments: every element type and compressor name (known and unknown), every fill value (all 64 bits of the double; the upper 32 for uint64 in zarr v3; for int64 in zarr v3 both signs, exponents 0, 32, 53, 62 and 63 and the upper 12 bits of the fraction), every 32-bit format version with every separator and key encoding; options: default, or level 0-22 and every block size (31 bits) and thread count with every shuffle and blosc codec; the stored document is compared field by field with the one the format asks for and read back; one changed byte, every truncation and every appended byte of every string of a document; through a store: create, stored bytes, open, query', outside='option values outside the stated ranges; more than 3 axes',
    jobs=[md(3, f, 0, 2) for f in (0, 1, 2, 3)] + [md(3, f, 1, d, covers=['accepted'] if d in (4, 5) and f != 1 else None) for f, d in ((0, 0), (0, 2), (0, 4), (0, 3), (0, 9), (1, 0), (1, 2), (1, 5), (2, 0), (2, 2), (2, 4), (2, 7), (3, 5), (2, 8), (2, 3), (2, 9))] + [md(3, f, 2, 2, covers=['accepted'] if f == 1 else None) for f in (0, 1, 2, 3)] +
    [md(4, f, k, d) for f in (0, 1, 2, 3) for k, d in ((0, 2), (1, 1), (3, 4), (7, 9))] + [md(4, 0, k, 2) for k in (2, 4, 5)] + [md(4, 1, k, 2) for k in (4, 5, 6)] + [md(4, 5, 1, 3), md(4, 4, 1, 8)] +
    [md(5, f, k, d, fl, covers=[c]) for f, k, d, fl, c in ((0, 0, 2, 6, 'roundtrip'), (0, 1, 4, 2, 'roundtrip'), (0, 2, 5, 5, 'roundtrip'), (0, 3, 1, 1, 'roundtrip'), (0, 4, 4, 3, 'roundtrip'), (0, 5, 9, 6, 'roundtrip'), (0, 6, 2, 0, 'refused'), (0, 7, 3, 7, 'roundtrip'), (1, 0, 2, 0, 'roundtrip'), (1, 1, 5, 0, 'roundtrip'), (1, 2, 1, 0, 'roundtrip'), (1, 3, 1, 0, 'roundtrip'), (1, 4, 3, 0, 'roundtrip'), (1, 5, 0, 0, 'roundtrip'), (1, 6, 6, 0, 'roundtrip'), (1, 7, 7, 0, 'roundtrip'), (2, 0, 2, 6, 'roundtrip'), (2, 1, 4, 2, 'roundtrip'), (2, 2, 5, 8, 'roundtrip'), (2, 3, 8, 1, 'roundtrip'), (2, 4, 2, 0, 'refused'), (2, 5, 2, 0, 'refused'), (2, 6, 2, 0, 'refused'), (2, 7, 5, 4, 'roundtrip'), (3, 0, 9, 6, 'roundtrip'), (3, 1, 1, 1, 'roundtrip'), (3, 7, 4, 3, 'roundtrip'), (3, 2, 5, 2, 'roundtrip'), (4, 1, 5, 2, 'roundtrip'), (5, 7, 4, 4, 'roundtrip'), (5, 0, 0, 1, 'roundtrip'))] +
    [md(2, f, k, d) for f, k, d in ((0, 1, 4), (0, 3, 2), (1, 1, 2), (1, 3, 8), (2, 1, 5), (2, 7, 0), (3, 7, 2))])
PROPS['C17'] = dict(bounds='extents, chunk and shard extents: one axis with any 64-bit value (sharded: chunk extent from a list up to 2^64-1 and any 64-bit shard extent) in 1 to 3 axes, through a stored document and through creation arguments; documents: every field of a valid document of every format removed, replaced by each JSON kind (null, booleans, any negative integer, real, string, empty array and object, 2^64-1), arrays lengthened and shortened; every string with one byte changed to any value, truncated anywhere or lengthened; stores: documents truncated anywhere, of up to 2 arbitrary bytes, missing, of another format or doubled', outside='two fields wrong at once; longer arbitrary documents',
    jobs=[md(0, f, nd, ax, d, t) for f, nd, ax, d, t in ((0, 1, 0, 2, 0), (0, 2, 0, 5, 1), (1, 2, 1, 3, 0), (1, 3, 0, 1, 1), (2, 2, 0, 4, 0), (2, 3, 2, 0, 1), (3, 1, 0, 3, 0), (3, 2, 0, 2, 0), (3, 2, 1, 2, 1), (4, 1, 0, 6, 0), (5, 2, 1, 7, 1))] +
    [md(1, f, k, d) for f, k, d in ((0, 0, 2), (0, 1, 4), (0, 4, 1), (0, 3, 6), (0, 0, 9), (1, 0, 2), (1, 1, 5), (1, 3, 8), (1, 5, 0), (1, 6, 7), (2, 0, 2), (2, 1, 3), (2, 7, 4), (2, 3, 6), (3, 0, 1), (3, 7, 2), (3, 1, 5), (4, 2, 6), (5, 1, 0))] +
    [md(2, f, k, d) for f, k, d in ((0, 0, 2), (0, 1, 4), (0, 4, 9), (1, 1, 2), (1, 0, 5), (2, 1, 4), (2, 0, 7), (3, 7, 2), (3, 1, 3), (5, 3, 5), (4, 5, 1))] + [md(3, f, w, 2, covers=['accepted'] if (f, w) == (1, 2) else None) for f in (0, 1, 2, 3) for w in (0, 1, 2)] + [md(6, c) for c in range(8)])

# ---- storage faults
FO = ['read a region', 'write a region', 'write a scalar', 'read a chunk', 'write a chunk', 'remove a chunk', 'chunk queries', 'open a dataset', 'attributes', 'remove a dataset', 'create a dataset', 'create a container', 'classify, list, read metadata', 'write a variable-length chunk']
def ft(o, f, c=1, d=0, n=1, pres=5, mask=1023, **k):
    if k.pop('codec_', 0): k['defs'] = codec(7)
    return J('h_fault', [o, f, c, d, n, mask, pres], '%s, %s, shape/chunk %s, %s, up to %d failing storage calls%s' % (FO[o], FMTS[f], CFGS[c], DT[d], n, ', zstd' if 'defs' in k else ''), ['intact', 'reported'], OPQ, **k)
PROPS['C25'] = dict(bounds='every public operation on small datasets of every format (all stored bytes and written values symbolic); any one or any two of its storage calls (open for reading or writing, read - including short reads -, write, flush/close, stat, mkdir, remove, rename, lock) fail', outside='three and more faults in one operation; faults that kill the process', jobs=
    [ft(o, f, 1, o % 3) for o in range(13) for f in (0, 1, 2, 3)] + [ft(13, 1), ft(6, 1, pres=2), ft(5, 3, 12, 1, pres=1), ft(4, 3, 0, 1, pres=0), ft(5, 6, 0, 1, pres=7)] + [ft(o, f, 0, 2) for o in (0, 1, 4, 7, 8, 10, 12) for f in (4, 5)] + [ft(o, f, 13, 1, 2, 3) for o in (0, 1, 2, 3, 4, 5, 6, 9, 11) for f in (0, 1, 3)] + [ft(o, f, 13, 1, codec_=1) for o in (0, 3) for f in (0, 1, 3)] +
    [ft(o, f, c, 1, 2, 1, tier='t') for o in range(13) for f in (0, 1, 2, 3) for c in (1, 13)])

# ---- python layer
KI = ['int', 'slice', '...', ':', 'slice with a step', 'list']
def px(m, nd, *ks, covers=None, **k):
    what = 'array of %d axes into a %d-d dataset' % (ks[0], nd) if m == 1 else '%s[%s], %d-d dataset' % (['read', '', 'write a scalar', 'write an array of %s axes' % (ks or ('',))[0]][m], ', '.join(KI[x] for x in (ks[1:] if m == 3 else ks)), nd)
    return J('py_index', [m, nd] + list(ks), what, covers if covers is not None else [], kind='py', **k)
def kinds_ok(nd, ks): return 5 not in ks and ks.count(2) < 2 and len([x for x in ks if x != 2]) <= nd
def cv(m, nd, ks):
    if not kinds_ok(nd, ks): return ['refused']
    return ['region'] + (['refused'] if 0 in ks or 4 in ks else []) + (['empty'] if 1 in ks or 4 in ks else [])
import itertools as _it
PYB = 'axis lengths any integer from 1 to 2^63-1, integers and slice bounds any integer (unbounded), each bound present or omitted'
PYT = ['Python ints are modelled as mathematical integers; numpy and the compiled module are recording stand-ins; path models are replayed with real numpy and plain ints']
PROPS['C23'] = dict(technique='path-exhaustive symbolic execution of the real Python functions with Z3 deciding every branch and assertion', assumptions=PYT, bounds=PYB + '; every combination of integer, slice, Ellipsis, ":", stepped slice and list items for 1- and 2-d datasets (with and without a tuple), for 3- and 4-d datasets one general item at every position next to simple ones', outside='5 and more axes; numpy scalar and boolean items; several general slices at once in 3-d and more',
    jobs=[px(0, nd, *ks, covers=cv(0, nd, ks)) for nd in (1, 2) for n in range(0, nd + 2) for ks in _it.product((0, 1, 2, 4, 5) if n <= 1 else (0, 1, 2), repeat=n) if ks.count(1) + ks.count(4) < 2] + [px(0, 2, 1, 3, covers=cv(0, 2, (1, 3))), px(0, 2, 3, 4, covers=cv(0, 2, (3, 4))), px(0, 2, 5, 0, covers=['refused']), px(0, 2, 1, 1, cost=8, covers=['region', 'empty'])] +
    [px(0, 3, *ks, covers=cv(0, 3, ks)) for ks in ((1, 3, 3), (3, 1, 3), (3, 3, 1), (0, 1, 3), (0, 3, 1), (3, 0, 1), (0, 0, 1), (2, 1), (1, 2), (2, 0), (0, 2), (0, 2, 1), (1, 2, 0), (0, 2, 0), (0, 0, 0), (2, 3, 1), (3, 2, 1), (1,), (0,), (), (2,), (2, 2), (0, 0, 0, 0), (2, 0, 0, 0), (2, 0, 0, 0, 0))] +
    [px(0, 4, *ks, covers=cv(0, 4, ks)) for ks in ((3, 1, 2, 0), (2, 0, 1), (0, 2, 1), (1, 2, 0), (0, 0, 2), (0, 2, 0))] + [px(2, nd, *ks, covers=cv(2, nd, ks)) for nd, ks in ((1, (0,)), (1, (1,)), (2, (0, 1)), (2, (1, 2)), (2, (2, 0)), (3, (0, 2, 1)), (3, (2, 2)), (2, (4, 0)), (3, (3, 1, 0)))] +
    [px(0, 2, *ks, tier='t', cost=8, time=1500) for ks in ((1, 2, 1), (2, 1, 1), (1, 1, 2), (1, 4), (4, 1))] + [px(0, 3, *ks, tier='t', cost=8, time=3000) for ks in ((1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 2, 1))])
PROPS['C24'] = dict(technique='path-exhaustive symbolic execution of the real Python functions with Z3 deciding every branch and assertion', assumptions=PYT, bounds='arrays of 0 to 5 axes assigned to regions of 1 to 4 axes, every extent from 0 to 2^40 (array) and 1 to 2^63-1 (region); regions given by Ellipsis and by integers and general slices', outside='more axes; element type conversion',
    jobs=[px(1, nd, an, covers=['stored', 'refused']) for nd in (1, 2, 3, 4) for an in range(0, 6) if nd + an < 9] + [px(3, nd, an, *ks, covers=['stored', 'refused'] + (['empty'] if 1 in ks else [])) for nd, an, ks in ((1, 1, (1,)), (1, 2, (1,)), (1, 0, (0,)), (2, 1, (1, 0)), (2, 1, (0, 1)), (2, 2, (0, 1)), (2, 1, (0, 2)), (3, 2, (3, 0, 1)), (3, 2, (0,)), (3, 1, (0, 0, 1)), (3, 1, (0, 2, 0)))])

# ---- threaded I/O
TO = ['read a region', 'write a region', 'write a scalar', 'write every chunk (parallel_for_each_chunk)', 'read every chunk (parallel_for_each_chunk)', 'remove every chunk (parallel_for_each_chunk)', 'test, read and then write or remove every chunk (parallel_for_each_chunk)']
def tio(o, f, c, d, pre, sp, nt, mask, reg=0, **k): return J('h_thr', [o, f, c, d, pre, sp, nt, mask, reg], '%s, %s, shape/chunk %s, %s, %d threads, up to %d preemptions and %d spurious wake-ups, stored chunks %s, %s' % (TO[o], FMTS[f], CFGS[c], DT[d], nt, pre, sp, bin(mask)[2:], ['whole dataset', 'all but the first column', 'all but the last position of every axis'][reg]), ['done'], OPQ, threads=True, **k)
PROPS['C22'] = dict(bounds='small datasets of 2 to 4 chunks or shards of every format, all stored and written values symbolic, 2 or 3 workers plus the caller (and 0 and negative thread counts), every schedule with up to 1 preemptive switch (2 for two chunks) and 1 spurious wake-up; result and store compared with the single-threaded run, data races and overlapping accesses to one file reported', outside='more threads, chunks or preemptions; weak-memory reorderings (reported as races instead)',
    jobs=[tio(o, f, c, d, 1, 0, 2, m, r, cost=2) for o, f, c, d, m, r in ((0, 0, 13, 1, 3, 0), (0, 1, 1, 0, 5, 1), (0, 2, 0, 2, 3, 2), (0, 3, 0, 1, 5, 0), (0, 6, 0, 0, 7, 1), (1, 0, 13, 1, 3, 0), (1, 1, 1, 0, 5, 1), (1, 2, 0, 2, 5, 1), (1, 3, 0, 1, 5, 0), (1, 6, 0, 0, 6, 1), (2, 0, 13, 4, 2, 1), (2, 1, 13, 1, 1, 2), (2, 2, 14, 1, 1, 0), (2, 3, 0, 2, 4, 1), (3, 0, 0, 0, 5, 0), (3, 1, 1, 0, 5, 0), (3, 2, 13, 1, 1, 0), (3, 3, 0, 1, 5, 0), (4, 0, 0, 1, 5, 0), (4, 1, 13, 1, 3, 0), (4, 3, 0, 1, 5, 0), (5, 0, 13, 1, 3, 0), (5, 1, 1, 0, 15, 0), (5, 3, 0, 1, 7, 0), (6, 0, 13, 1, 3, 0), (6, 1, 13, 1, 1, 0), (6, 2, 13, 1, 3, 0), (6, 3, 11, 0, 3, 0), (6, 3, 11, 1, 1, 0))] +
    [tio(o, f, 13, 1, 0, 1, 2, 1, r) for o in (0, 1, 2) for f, r in ((0, 1), (1, 0), (3, 0))] + [tio(o, f, 0, 1, 0, 0, 3, 5, 1, cost=2) for o in (0, 1) for f in (0, 1, 3)] + [tio(o, f, 0, 1, 1, 0, nt, 5, 1) for o, f, nt in ((0, 0, 0), (1, 1, 0), (1, 3, 0), (2, 2, 1), (0, 3, 1))] + [tio(o, f, 13, 1, 0, 0, -1, 2, 0) for o, f in ((0, 0), (1, 3), (2, 1))] +
    [tio(1, 0, 14, 0, 2, 0, 2, 1, 0, cost=6), tio(0, 1, 13, 1, 2, 0, 2, 3, 0, cost=6, tier='t', time=1500)] + [tio(o, f, 0, 1, 2, 0, 2, 5, 1, tier='t', time=2000, cost=9) for o in (0, 1, 2, 3, 5) for f in (0, 1, 3)] + [tio(o, f, 0, 1, 1, 0, 3, 5, 0, tier='t', time=2000, cost=9) for o in (0, 1) for f in (0, 3)])
# ---- whole-dataset utilities
UO = ['unique values', 'unique values with counts', 'remove trivial chunks', 'remove chunks holding only a value', 'remove dataset', 'remove through the dataset']
def ut(o, f, c, d, nt=1, pre=0, mask=0, vl=0, nar=0, **k): return J('h_util', [o, f, c, d, nt, pre, mask, vl, nar], '%s, %s, shape/chunk %s, %s%s, %d threads, up to %d preemptions, stored chunks %s%s' % (UO[o], FMTS[f], CFGS[c], DT[d], ' (elements 0 or 1)' if nar else '', nt, pre, bin(mask)[2:] if mask else 'any subset', ', a variable-length first chunk of %d' % (vl - 1) if vl else ''), ['values'] if o < 2 else ['removed'], OPQ, threads=nt > 1, **k)
PROPS['C26'] = dict(bounds='datasets of up to 6 elements in up to 4 chunks for values and counts, up to 9 chunks for removal, every subset of chunks stored (or the stated one), all element bits and the padding of edge chunks symbolic (elements 0 or 1 with several threads), NaN included; 2 threads with up to 1 preemption', outside='larger datasets; NaN is not reported by unique (it cannot be an element of an ordered set)', jobs=
    [ut(0, f, c, d) for f, c, d in ((0, 13, 1), (1, 13, 2), (2, 14, 4), (0, 13, 4), (3, 13, 0), (1, 14, 5), (4, 5, 6))] + [ut(0, 0, 0, 0, cost=4)] +
    [ut(1, f, c, d) for f, c, d in ((0, 13, 1), (1, 13, 2), (2, 14, 5), (3, 13, 0), (1, 13, 4), (6, 5, 0), (5, 13, 3))] +
    [ut(2, f, c, d) for f, c, d in ((0, 0, 2), (1, 0, 1), (2, 13, 4), (3, 13, 5), (0, 1, 0), (1, 2, 0), (6, 4, 1), (4, 4, 6))] +
    [ut(3, f, c, d) for f, c, d in ((0, 0, 1), (1, 0, 2), (2, 13, 5), (3, 13, 4), (0, 13, 4), (1, 1, 0))] +
    [ut(o, 1, c, d, 1, 0, m, v) for o, c, d, m, v in ((0, 13, 1, 2, 4), (1, 13, 0, 2, 3), (2, 13, 2, 2, 4), (2, 13, 0, 2, 1), (3, 13, 1, 2, 2), (2, 11, 4, 3, 3))] +
    [ut(o, f, 13 if f < 3 else 11, 0, 2, p, 3, 0, 1) for o, f, p in ((0, 0, 1), (1, 1, 1), (1, 0, 0), (0, 3, 1), (1, 3, 1), (2, 0, 1), (2, 1, 1), (3, 2, 1), (2, 3, 1), (4, 1, 1), (4, 0, 1), (4, 3, 1))] +
    [ut(o, f, c, 0, 1) for o, f, c in ((4, 0, 1), (4, 1, 1), (4, 2, 2), (4, 3, 4), (5, 0, 0), (5, 1, 1), (5, 3, 0))] +
    [ut(o, f, c, d, tier='t') for o, f, c, d in ((0, 0, 12, 0), (0, 1, 11, 5), (1, 1, 11, 4), (0, 1, 0, 2), (0, 2, 0, 4), (1, 0, 0, 1), (1, 1, 0, 4), (0, 2, 4, 0), (2, 2, 9, 0), (3, 1, 10, 0), (2, 3, 7, 1))] + [ut(o, f, 11, 0, 2, 1, 3, 0, 1, tier='t') for o in (0, 1, 2) for f in (0, 1, 2)])
# ---- node classification
ND = {0: 'arbitrary marker documents below a container', 1: 'nodes created by the library', 3: 'n5 node with an arbitrary subset of attributes'}
PROPS['C27'] = dict(bounds='a child node with every combination of directory, .zarray, .zgroup, .zattrs, zarr.json (array, group, group with misleading attributes), attributes.json and a chunk, in containers of the three formats; n5 nodes with every subset of the five dataset attributes and three others; every node the library creates, after writing a user attribute whose key is one of eight special names or any printable character and a digit, with five kinds of values', outside='zarr.json without a node_type; other key names; nodes that hold documents of several formats (checked only for being refused); intermediate directories of a nested path', jobs=
    [J('h_node', [0, f], ND[0] + ', ' + n, ['missing', 'opened', 'refused'] + (['mixed'] if f == 1 else []), OPQ) for f, n in enumerate(('zarr v2', 'n5', 'zarr v3'))] + [J('h_node', [3, 1], ND[3], ['opened', 'refused'])] +
    [J('h_node', [1, f, w], ND[1] + ', ' + n + ', attribute on ' + ['the file', 'a group', 'a dataset', 'a dataset in a group'][w], ['recognised'] + (['refused'] if f == 1 and w != 1 else []), OPQ, cost=3 if f == 2 else 1) for f, n in enumerate(('zarr v2', 'n5', 'zarr v3')) for w in (0, 1, 2, 3)])
# ---- attributes
AN = ['the file', 'a group', 'a dataset']; AK = ['special and ordinary names', 'any one-character name', 'three names']
def at(f, n, ops, vals, first, keys, **k): return J('h_attr', [f, n, ops, vals, first, keys], '%s, %s, %d operations (%s first), %s, %s' % (('zarr v2', 'n5', 'zarr v3')[f], AN[n], ops, ['write', 'remove', 'any'][first], AK[keys], ['six kinds of values', 'any digit'][vals]), ['written', 'removed'] + (['protected'] if f == 1 and n != 1 and keys != 1 else []), OPQ, cost=3 if f == 2 else 1, **k)
PROPS['C18'] = dict(bounds='one write of one or two keys or one removal (thorough: two operations) on every subset of stored attributes; keys: six special names (for n5 each reserved name) or any printable one-character name; values: six kinds of JSON values or any digit; file, group and dataset of the three formats; the stored document and the attributes read back compared with a map of what the user wrote', outside='names with characters that JSON escapes; other values; the Python AttributeManager (it only forwards JSON text)', jobs=
    [at(f, n, 1, 0, 2, 0) for f in (0, 1, 2) for n in (0, 1, 2)] + [at(f, n, 1, 1, 2, 1) for f in (0, 1, 2) for n in (0, 1, 2)] + [at(f, n, 2, 1, 2, 2, tier='t', time=1500) for f in (0, 1, 2) for n in (0, 1, 2)])

# ---- modes
MO = ['predicates', 'open or create the container', 'create a group', 'create a dataset', 'write attributes', 'remove an attribute', 'remove a node', 'chunk handle', 'write a region', 'write a scalar', 'write a chunk', 'remove a chunk', 'remove a dataset', 'remove trivial chunks', 'read everything', 'write a shard', 'anything below a group']
def mo(o, f, t=0): return J('h_mode', [o, f, t], '%s, %s%s' % (MO[o], ('zarr v2', 'n5', 'zarr v3', 'zarr v3 sharded', "zarr v2 '/'")[f], ', two threads' if t else ''), ['done'] if o == 0 else ['accepted'] if o == 14 else ['accepted', 'refused'], OPQ)
PROPS['C19'] = dict(assumptions=PYT[1:] if len(PYT) > 1 else PYT, bounds='the five modes of the C++ library (all 256 mode bytes restricted to them) and the seven names of the Python layer, container and target present or absent, every mutating operation of the public interface through containers, groups, datasets and chunk handles; the stored bytes compared before and after', outside='concurrent changes by another process; the mode of a container reopened in the middle of an operation', jobs=
    [mo(0, 0)] + [mo(o, f) for o in range(1, 15) for f in ((0, 1, 2, 3, 4) if o in (7, 8, 9, 10, 11) else (0, 1, 2, 3) if o > 7 else (0, 1, 2))] + [mo(15, 3)] + [mo(16, f) for f in (0, 1, 2, 3)] + [mo(8, f, 1) for f in (0, 1, 3)] +
    [J('py_file', [0], 'z5py.File: every mode, extension, requested format, stored format, marker and version', ['opened', 'refused'], kind='py', cost=3)])
# ---- names (python)
NO = ['create_group', 'require_group', 'create_dataset', 'require_dataset', 'del', '[]']
PROPS['C33'] = dict(technique='path-exhaustive symbolic execution of the real Python functions with Z3 deciding every branch and assertion', assumptions=['the compiled handles are stand-ins over a path-to-node store; paths are joined as std::filesystem::path does'], bounds='names of 1 to 3 components, each an existing group, an existing dataset or a missing node, with and without a leading slash, used on a file or a group in the modes r, r+ and a, zarr v2, v3 and n5; the whole store compared with what the name asks for', outside='names with "." and ".." components or repeated slashes; names of more than three components', jobs=
    [J('py_file', [1, o, z], 'z5py %s, %s' % (NO[o], ('n5', 'zarr')[z]), ['accepted', 'refused'], kind='py', cost=2) for o in range(6) for z in (0, 1)])
# ---- creating datasets through python
PROPS['C16']['jobs'] += [J('py_file', [2, f, n], 'z5py create_dataset, %s, %d axes: every compressor and option, element type, extents, encoding, refusals' % (('zarr v2', 'n5', 'zarr v3')[f], n), ['created', 'refused'], kind='py') for f in (0, 1, 2) for n in (1, 2, 3, 4)]

# ---- chunk keys
KV = ["zarr v2 '.'", 'n5', "zarr v3 '/'", "zarr v3 '.'", "zarr v2 '/'", "zarr v3, v2 keys '.'", "zarr v3, v2 keys '/'", 'zarr v3 sharded']
def ky(m, k, n, a=0, **kw): return J('h_key', [m, k, n, a], '%s, %s, %d axes%s' % (['key of a chunk', 'keys of two chunks', 'operations on two chunks'][m], KV[k], n, ', axis %d with up to 20 digits' % a if m == 0 else ''), [['key', 'compared', 'used'][m]], **kw)
PROPS['C07'] = dict(bounds='1 to 4 axes, every key variant; indices of one axis with 1 to 3 free digits alone or after a beginning near each power of two or ten up to 2^64 (7 to 20 beginnings), of the other axes 1 or 2 free digits; two arbitrary indices up to 120 (11 for 3 and more axes) per axis for collisions; write, read, test, region read and write, remove and reported path for every pair of chunks out of a grid with one-, two- and three-digit indices', outside='other beginnings of long indices; more than 4 axes', jobs=
    [ky(0, k, n, a, cost=2 + n) for k in range(7) for n, a in ((1, 0), (2, 0), (2, 1), (3, (k + 1) % 3), (4, k % 4))] + [ky(1, k, n, cost=2) for k in range(7) for n in (1, 2)] + [ky(1, k, 3, cost=3) for k in (0, 1, 2)] + [ky(2, k, n) for k in range(8) for n in (1, 2, 3)] + [ky(0, k, 3, a, tier='t', cost=4) for k in range(7) for a in (0, 1, 2)])
NOT_APPLICABLE = dict(C32='the S3 and GCS backends need the AWS and Google Cloud SDKs; neither their headers nor libraries are installed, the backends are compiled out of this build, and their behaviour is that of remote services')

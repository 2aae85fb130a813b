import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
I="include/z5/"
p("C01","Region write/read round trip on plain chunked datasets",
 "After writing an array into any in-range region of a zarr v2, zarr v3 or n5 dataset, reading any in-range region returns, for every element, the last value written to it, and the fill value (zero for n5) where nothing was ever written. Elements outside the written region are unchanged, including those sharing a chunk with it, and this holds for every combination of region, chunk size and dataset shape, edge chunks included.",
 ["inputs","histories"],"all datasets of 1 to 3 dimensions, all chunk shapes, all pairs of in-range write and read regions, all element values",
 "The tests write a handful of fixed regions with fixed shapes; the number of (shape, chunk, offset, extent) combinations in which a region touches, covers or straddles chunks is unbounded and a slip affects only some of them.",
 [I+"multiarray/array_access.hxx",I+"multiarray/array_util.hxx",I+"generic/dataset.hxx",I+"util/blocking.hxx"],
 [("read dispatch over overlapping chunks","readSubarray / forEachBuffered"),("read-modify-write of partially covered chunks","writePlainGeneric")],
 ["result of readSubarray after writeSubarray; stored chunk bytes"])
p("C02","A region is decomposed into exactly the chunks it touches, without overlap",
 "For every in-range region, the list of chunks consulted contains each chunk that shares at least one element with the region exactly once and no other chunk. The per-chunk sub-regions handed to the copy routines (position in the request, extent, position in the chunk, and whether the chunk is fully covered) are pairwise disjoint, lie inside both chunk and request, and together cover the whole request.",
 ["inputs"],"all dataset shapes, chunk shapes, region offsets and extents (full 64-bit extents where the number of touched chunks is bounded)",
 "Tests compare a few hand-computed decompositions with small extents; completeness and disjointness are universally quantified over shapes and extents.",
 [I+"util/blocking.hxx"],[("overlap enumeration","Blocking::getBlocksOverlappingRoi"),("per-chunk overlap","Blocking::getCoordinatesInRoi")],["returned chunk list and per-chunk sub-regions"])
p("C03","Chunk geometry is exact for all 64-bit extents",
 "For every dataset shape and chunk shape representable as signed 64-bit numbers, the number of chunks per axis is the rounded-up quotient, each chunk begins at its index times the chunk size, and its extent is the chunk size clipped to the dataset boundary. No size, offset or extent is ever truncated or wrapped when the true value is representable.",
 ["inputs"],"all 64-bit dataset shapes, chunk sizes, chunk indices and region offsets",
 "Tests use extents of a few hundred elements, so narrowing to 32 bits, rounding and wrap-around errors never show.",
 [I+"util/blocking.hxx",I+"dataset.hxx",I+"handle.hxx"],[("grid computation","Blocking::init"),("edge clipping","handle::Chunk bounded shape, Blocking::getBlockShape")],["chunks per dimension, number of chunks, chunk offset and shape"])
p("C04","Linear chunk number and chunk coordinate are mutually inverse",
 "Over the grid of a dataset, converting a linear chunk number to a coordinate and back gives the same number, every coordinate has exactly one number below the number of chunks, and consecutive numbers enumerate the coordinates in row-major order. Coordinates outside the grid are rejected.",
 ["inputs"],"all grids of 1 to 4 dimensions (64-bit extents with bounded products) and all chunk numbers",
 "A bijection cannot be established by sampling; tests visit a few small grids.",
 [I+"util/blocking.hxx",I+"util/util.hxx"],[("strides","Blocking::init"),("conversions","Blocking::blockIdToBlockCoordinate / blockCoordinatesToBlockId"),("regular grid listing","util::makeRegularGrid")],["converted coordinates and numbers"])
p("C05","Strided copies move exactly the addressed elements",
 "Copying between two array views of equal shape but arbitrary strides makes every destination element equal the source element at the same coordinate and changes no memory outside the destination view; filling a view sets every addressed element and nothing else. Sub-views address exactly the elements of the parent at the shifted coordinates.",
 ["inputs"],"all shapes of 1 to 4 dimensions incl. zero and one extents, all non-negative stride layouts (contiguous, padded, permuted)",
 "Contiguity fast paths depend on the stride pattern; tests only use C-order arrays and one or two padded ones.",
 [I+"multiarray/array_util.hxx",I+"multiarray/array_view.hxx"],[("contiguous-run collapse","copyView / fillView"),("sub-view offset","ArrayView::subview")],["destination buffer after the copy, including guard bytes"])
p("C06","Out-of-range requests are refused without side effects",
 "A read or write whose dimensionality differs from the dataset's, whose extent is zero along an axis, or whose offset plus extent exceeds the dataset along any axis (including when that sum exceeds 64 bits), or a read or write of a chunk with an out-of-grid index, raises an error. A refused request neither modifies nor creates any stored data.",
 ["inputs"],"all 64-bit offsets, extents and chunk indices, for every format",
 "Tests try a few out-of-range offsets; sums that wrap around and mixed valid/invalid axes are not covered.",
 [I+"dataset.hxx",I+"multiarray/array_access.hxx",I+"multiarray/broadcast.hxx",I+"handle.hxx"],[("request validation","Dataset::checkRequestShape / checkRequestType / checkChunk")],["raised errors, store contents"])
p("C07","Chunk keys follow the format's spec and never collide",
 "The storage key of a chunk is the decimal chunk index joined by the configured separator in axis order (zarr v2), the same prefixed by 'c' under the default v3 encoding, or the axis-reversed '/'-joined index (n5). Two different chunks of a dataset never share a key, and the path used for writing, reading, testing existence and removing a chunk is the same.",
 ["inputs","configurations"],"all chunk indices of 1 to 4 dimensions, all formats, separators and v3 key encodings",
 "Tests look at a few single-digit indices; collisions need particular multi-digit indices or separators.",
 [I+"handle.hxx",I+"filesystem/handle.hxx",I+"util/util.hxx"],[("key building","handle::Chunk::getChunkKey, util::join")],["path of the stored chunk object"])
p("C08","N5 chunks are encoded exactly as the N5 specification says",
 "A stored n5 chunk is a big-endian header (mode, dimension count, axis-reversed extents, element count only for variable-length chunks) followed by the encoded payload with elements in big-endian order. Decoding what was encoded gives back the same extents, element count and element values for every element type.",
 ["inputs"],"all element types, 1 to 4 dimensions, all extents up to 32 bits in the header, all element bit patterns, variable-length counts",
 "Tests round-trip random data through the same code, so a consistently wrong header or byte order goes unnoticed, and only for a few shapes.",
 [I+"util/format_data.hxx",I+"util/util.hxx"],[("header writer","util::write_n5_header"),("header reader","util::read_n5_header / filesystem::read_n5_header"),("byte order","util::reverseEndiannessInplace")],["bytes of the stored chunk; decoded values"])
p("C09","Malformed n5 chunks produce an error, never memory corruption",
 "Reading a chunk file of an n5 dataset with arbitrary contents (any length, any header fields) either raises an error or returns data that the header and payload really describe. It never reads past the end of the stored bytes, never writes past the caller's buffer, and never returns bytes that are not in the file.",
 ["inputs","fault_sequences"],"all byte strings up to the bound as chunk content, all element types",
 "Tests never feed corrupt chunk files; memory safety is universally quantified over file contents.",
 [I+"util/format_data.hxx",I+"generic/dataset.hxx",I+"filesystem/store.hxx",I+"multiarray/array_access.hxx"],[("header bounds checks","read_n5_header"),("payload size checks","buffer_to_data")],["raised errors, memory accesses of the read"])
p("C10","A shard file gives back exactly the inner chunks put into it",
 "For every set of present and absent inner chunks with arbitrary contents, the shard written from them parses back to the same presence flags and bytes. The index is at the end of the file, followed by its CRC-32C, and holds one little-endian (offset, length) pair per inner chunk in row-major order; the pairs of present chunks lie inside the file before the index and do not overlap, and absent chunks are marked with all-ones.",
 ["inputs","configurations"],"all presence patterns, chunk contents and chunk lengths (up to the bound)",
 "Tests only round-trip a few shards through the same code.",
 [I+"util/sharding.hxx"],[("shard assembly","buildShard"),("shard parsing","parseShardIndex / extractShardBlobs")],["shard bytes and parsed blobs"])
p("C11","Corrupt shard files are detected, never misread",
 "Reading a shard file with arbitrary contents either raises an error or returns inner chunks that are sub-ranges of the file as its index describes; it never reads outside the file. Any index whose checksum does not match is refused, and a write that would have to keep chunks of a corrupt shard is refused without changing it.",
 ["inputs","fault_sequences"],"all byte strings up to the bound as shard file, all slot counts up to the bound, 64-bit offsets and lengths incl. wrapping sums",
 "Tests flip one byte of one shard; offsets and lengths whose sum wraps around are never tried.",
 [I+"util/sharding.hxx",I+"generic/sharded_dataset.hxx"],[("bounds check of entries","parseShardIndex / extractShardBlobs"),("checksum verification","util::crc32c")],["raised errors, memory accesses of the read"])
p("C12","The index checksum is CRC-32C",
 "For every byte string the computed checksum equals the standard CRC-32C (Castagnoli, reflected, initial value and final xor all-ones). In particular any single-byte change of the data changes the checksum.",
 ["inputs"],"all byte strings up to the bound; all (state, byte) pairs for the step function",
 "Tests check one or two known vectors.",
 [I+"util/crc32c.hxx"],[("table driven update","util::crc32c")],["checksum value"])
p("C13","Shard number and slot identify every inner chunk uniquely",
 "Every inner chunk index maps to one shard and one slot inside it such that the chunk can be recovered from the pair, no two chunks share a pair, and the slot is the row-major position below the number of slots. Inner chunks that lie in the same shard share one storage object, and chunks of different shards never do.",
 ["inputs"],"all inner chunk indices, chunks-per-shard shapes of 1 to 4 dimensions, 64-bit indices",
 "Injectivity over all indices cannot be sampled.",
 [I+"util/sharding.hxx",I+"generic/sharded_dataset.hxx",I+"multiarray/array_access.hxx"],[("addressing","shardId / shardSlot / chunksPerShard")],["shard id, slot, grouping of chunks by shard"])
p("C14","Updating one inner chunk of a shard preserves all others",
 "Writing, overwriting or removing inner chunks of a shard leaves the stored contents of every other inner chunk of that shard byte-identical, and afterwards each touched chunk reads back as written. A shard in which no inner chunk remains is removed from the store.",
 ["inputs","histories"],"all prior shard states (presence and contents of every slot), all updates of one or several slots",
 "Tests exercise few update histories with full shards; interactions of presence patterns are not covered.",
 [I+"generic/sharded_dataset.hxx",I+"util/sharding.hxx",I+"multiarray/array_access.hxx"],[("read-modify-write","ShardedDataset::writeShardEntries / writeChunk")],["shard file contents; other chunks' values"])
p("C15","Missing and all-fill chunks read as the fill value",
 "Any chunk that is not stored reads as the dataset's fill value in every element. Writing a chunk that consists only of the fill value leaves no stored chunk behind (a previously stored one is removed) and the region reads back as the fill value; a chunk with at least one other value is always stored.",
 ["inputs","histories"],"all fill values of the element type, all chunk contents, chunk present or absent beforehand",
 "Tests use fill value 0 or one other value and few histories.",
 [I+"multiarray/array_access.hxx",I+"generic/dataset.hxx",I+"util/format_data.hxx"],[("trivial chunk elision","data_to_buffer / writePlainGeneric"),("missing chunk fill","readSubarray")],["stored objects, read values"])
p("C16","Dataset metadata survives being written and read back",
 "Creating a dataset with any supported element type, shape, chunk shape, shard shape, compressor with options, fill value, separator and format, and opening it again yields the same metadata. The stored document follows the format's schema (axis order reversed for n5, format-specific type and codec names). The Python layer asks for exactly what its caller asked for, and the options it reports can be passed back to it.",
 ["inputs","configurations"],"all combinations of format, element type, compressor and option values; all 64-bit shapes",
 "The configuration product is far larger than the handful of test datasets, and option values are integers with format-specific mappings.",
 [I+"metadata.hxx",I+"types/types.hxx",I+"generic/metadata.hxx",I+"filesystem/metadata.hxx"],[("serialisation","DatasetMetadata::toJson"),("parsing","DatasetMetadata::fromJson")],["metadata after reopening; stored JSON document"])
p("C17","Invalid dataset metadata is refused with an error",
 "Creating or opening a dataset whose metadata is inconsistent or unsupported (zero or negative chunk extents, differing dimensionalities, shard shape that is not a multiple of the chunk shape, unknown element type or compressor, big-endian or non-C-order data, wrong format version) raises an error. It never crashes and never yields a dataset that would interpret stored data wrongly.",
 ["inputs","configurations"],"all values of the extents and all subsets of inconsistent fields within the bound",
 "Tests check a few single-field errors; crashes such as division by zero need particular values.",
 [I+"metadata.hxx",I+"factory.hxx",I+"types/types.hxx"],[("validation","DatasetMetadata::checkShapes / fromJson*")],["raised errors"])
p("C18","User attributes are merged, removed and protected exactly as requested",
 "Writing attributes changes exactly the given keys and keeps all others, removing deletes exactly the given key, and reading returns exactly the user's attributes. For n5 datasets the attributes that hold dataset metadata cannot be overwritten, removed or seen through the attribute interface; for zarr v3 the rest of the metadata document is left untouched.",
 ["inputs","histories"],"all subsets of existing and written keys (incl. reserved names), all formats and node kinds",
 "Tests use one or two attribute names and no histories mixing reserved and free keys.",
 [I+"attributes.hxx",I+"generic/attributes.hxx",I+"filesystem/attributes.hxx"],[("merge","generic writeAttributes"),("protection of reserved keys","attributes.hxx")],["attributes read back; stored document"])
p("C19","File modes decide exactly what may be created, opened and modified",
 "Opening with a mode permits exactly the operations it documents: 'r' and 'r+' need an existing container, 'w-'/'x' refuse an existing one, 'w' replaces it, 'a' opens or creates. Through a read-only handle no operation ever creates, changes or deletes stored data: it is refused.",
 ["inputs","histories","configurations"],"all modes, container present or absent, all mutating operations",
 "Tests check a few mode/operation pairs, not the whole product.",
 [I+"util/file_mode.hxx",I+"handle.hxx",I+"filesystem/handle.hxx",I+"generic/dataset.hxx",I+"attributes.hxx",I+"factory.hxx"],[("mode predicates","FileMode"),("write guards","handles, dataset and attribute writers")],["raised errors; store contents before/after"])
p("C20","Codec wrappers respect buffer bounds and report every codec error",
 "For every chunk size, each compressor hands its library only memory it owns, keeps exactly the bytes the library produced, and decompression returns precisely the original bytes. If the library reports an error, produces fewer or more bytes than the chunk needs, or the stored data is truncated or empty, an error is raised and no memory outside the buffers is touched.",
 ["inputs","fault_sequences"],"all chunk sizes and stored sizes up to the bound, every return value the library's contract allows at each call",
 "Libraries practically never fail in tests; error paths and output sizes at the buffer limit are not exercised.",
 [I+"compression/raw_compressor.hxx",I+"compression/blosc_compressor.hxx",I+"compression/zlib_compressor.hxx",I+"compression/bzip2_compressor.hxx",I+"compression/lz4_compressor.hxx",I+"compression/xz_compressor.hxx",I+"compression/zstd_compressor.hxx"],[("compress/decompress wrappers","CompressorBase subclasses")],["raised errors; arguments of library calls; output bytes"])
p("C21","Parallel loops run every item exactly once under every schedule",
 "A parallel loop over any number of items with any number of threads calls its function exactly once per item with a worker number below the thread count, returns only after all calls finished, and rethrows an exception of an item. No schedule deadlocks or loses a wake-up. A task that was started is finished before the pool is destroyed; tasks still queued then are dropped and their futures report an error.",
 ["schedules","inputs"],"all interleavings up to the preemption bound, item counts and thread counts up to the bound, any throwing item",
 "A test observes the few schedules the OS happens to pick.",
 [I+"util/threadpool.hxx",I+"util/for_each.hxx"],[("worker loop and shutdown","ThreadPool::init / ~ThreadPool"),("work splitting","parallel_foreach_impl variants"),("future collection","getFutures")],["calls made, exceptions, termination"])
p("C22","Multithreaded region I/O equals single-threaded I/O",
 "Reading or writing a region (or broadcasting a scalar) with any number of threads gives the same stored chunks and the same result as with one thread, under every schedule, for plain and sharded datasets. Worker threads never access the same element of a buffer or the same stored object concurrently.",
 ["schedules","inputs"],"all interleavings up to the preemption bound of the workers on small datasets, symbolic data",
 "Races appear only under rare schedules.",
 [I+"multiarray/array_access.hxx",I+"multiarray/broadcast.hxx",I+"generic/sharded_dataset.hxx",I+"util/for_each.hxx"],[("per-worker scratch buffers","forEachBuffered / forEachWithState"),("grouping by shard","groupChunksByShard")],["stored chunks and read buffer; conflicting accesses"])
p("C23","Python indexing selects the same region as numpy",
 "For every supported index expression (integers incl. negative ones, slices with omitted, negative or out-of-range bounds, Ellipsis, fewer indices than axes) the offset and extent derived from it are those numpy would select for an array of that shape, and integer-indexed axes are the ones dropped. A slice that starts before the first element (below minus the axis length) selects nothing, as in h5py. Unsupported expressions (steps, lists, too many items, several Ellipsis) and integers out of range raise an error.",
 ["inputs"],"all dataset shapes of 1 to 3 dimensions, all integer and slice bounds, all positions of Ellipsis",
 "Boundary values such as -size, size and beyond on each axis in each position are not all tested.",
 ["src/python/module/z5py/shape_utils.py","src/python/module/z5py/dataset.py"],[("index normalisation","normalize_slices, slice_to_start_stop, int_to_start_stop")],["offset, extent, squeezed axes; raised errors"])
p("C24","Python assignment only adds or drops singleton axes",
 "When an array is assigned to a region that is not empty, it is accepted if its shape equals the region's shape up to leading and trailing axes of length one, refused if it differs by more than axes of length one, and if accepted its elements keep their order and land in exactly that region. No other shape is ever stored in rearranged form.",
 ["inputs"],"all array shapes and region shapes up to 3 (4) dimensions",
 "Tests check a few shapes.",
 ["src/python/module/z5py/shape_utils.py","src/python/module/z5py/dataset.py"],[("shape alignment","rectify_shape")],["resulting array shape; raised errors"])
p("C25","Storage faults are reported to the caller",
 "If opening, reading, writing, flushing or closing a chunk, shard, metadata or attribute file fails, or fewer bytes than the file's size can be read, the operation that needed it raises an error. An operation that returns normally has delivered all its bytes to storage.",
 ["fault_sequences","crash_points"],"a fault at any one storage call of any operation, including short reads and failures that only show on close",
 "Tests never see I/O errors such as a full disk.",
 [I+"filesystem/store.hxx",I+"filesystem/attributes.hxx",I+"filesystem/metadata.hxx",I+"factory.hxx"],[("stream state checks","readFile / writeFile / JsonIO")],["raised errors versus injected faults"])
p("C26","Whole-dataset utilities agree with reading everything",
 "Finding unique values (with or without counts) over a dataset gives exactly the distinct values, and counts, of the elements of the stored chunks that lie inside the dataset (NaN, which no ordered set can hold, is left out). Removing trivial chunks deletes exactly the stored chunks in which all elements are equal (optionally: equal to a given value) and no others, and removing a dataset leaves nothing of it behind.",
 ["inputs"],"all chunk contents and presence patterns within the bound, 1 to 2 threads",
 "The functions have no tests of their own; padding of edge chunks, special values and schedules matter.",
 [I+"util/functions.hxx",I+"filesystem/handle.hxx"],[("reduction over chunks","unique / uniqueWithCounts / removeTrivialChunks")],["returned values and counts; stored chunks"])
p("C27","Nodes are classified as group or dataset from what is stored",
 "A node is opened as a dataset exactly if a dataset of that format is stored there, as a group exactly if a group is, and a missing node is reported missing. Detecting a container's format depends only on the stored marker documents and recognises whatever the library itself created, with any user attributes.",
 ["inputs","configurations"],"all combinations of marker documents and of presence of dataset attributes, with arbitrary additional user attributes",
 "Tests check containers created in one way.",
 [I+"handle.hxx",I+"filesystem/handle.hxx",I+"filesystem/metadata.hxx",I+"generic/metadata.hxx",I+"filesystem/factory.hxx"],[("classification","isZarrDataset / isZarrGroup / hasAllN5DatasetAttributes / getMetadata")],["classification results; raised errors"])
p("C28","A damaged chunk file of a plain dataset is never returned as data",
 "If a stored zarr chunk (raw or compressed) has fewer or more decoded bytes than the chunk shape requires, reading it raises an error. The caller never receives bytes left over from other chunks or from uninitialised memory.",
 ["inputs","fault_sequences"],"all stored chunk sizes from zero to beyond the full size, all element types, any preceding reads",
 "Tests never truncate chunk files.",
 [I+"util/format_data.hxx",I+"generic/dataset.hxx",I+"compression/raw_compressor.hxx",I+"multiarray/array_access.hxx"],[("size validation","buffer_to_data / decompress")],["read result versus stored bytes; raised errors"])
p("C29","Broadcasting a scalar equals writing a constant array",
 "Writing one value to a region stores the same chunks and changes the same elements as writing an array filled with that value, for all formats, plain and sharded. Elements outside the region keep their value.",
 ["inputs","histories"],"all in-range regions, all values incl. the fill value, prior contents arbitrary",
 "Tests broadcast to a few regions.",
 [I+"multiarray/broadcast.hxx",I+"multiarray/array_access.hxx"],[("broadcast","writeScalar")],["stored chunks and read values"])
p("C30","Region write/read round trip on sharded datasets",
 "After any sequence of in-range region writes to a sharded zarr v3 dataset, reading any in-range region returns for every element the last value written to it, or the fill value where nothing was written. Elements outside the written regions are unchanged, also when they share an inner chunk or a shard with one.",
 ["inputs","histories"],"1 and 2 dimensional datasets, all in-range region pairs, all element values, incl. edge shards",
 "Few fixed regions are tested; (region, chunk, shard) alignment cases multiply.",
 [I+"multiarray/array_access.hxx",I+"generic/sharded_dataset.hxx",I+"util/sharding.hxx"],[("grouped shard access","readSubarraySharded / writeShardedGeneric")],["read values; shard files"])
p("C31","Single-chunk access stores and returns exactly the chunk",
 "Writing a chunk and reading it back returns the same elements for every chunk index, including clipped edge chunks, and for n5 variable-length chunks the same length and values. Existence queries and size queries agree with what was stored, and the other chunks are not touched.",
 ["inputs","histories"],"all chunk indices of the grid, all contents, all formats, fixed and variable-length",
 "Tests use few chunks; edge and varlen combinations are sampled.",
 [I+"generic/dataset.hxx",I+"generic/sharded_dataset.hxx",I+"util/format_data.hxx",I+"filesystem/store.hxx"],[("chunk I/O","Dataset::writeChunk / readChunk / checkVarlenChunk")],["chunk contents, sizes, existence"])
p("C32","Remote object-store backends behave like the filesystem backend",
 "Reading, writing, testing and listing chunks, attributes and metadata through the S3 and Google Cloud Storage backends has the same observable effect as through the filesystem backend, and request failures are reported.",
 ["inputs","fault_sequences"],"all request outcomes",
 "There is no service in the tests.",
 [I+"s3/store.hxx",I+"s3/handle.hxx",I+"gcs/dataset.hxx"],[("object access","S3 store policy")],["requests and results"])
p("C33","Names address nodes inside their container",
 "Creating, requiring, opening or deleting a group or dataset under a name - with or without a leading slash, with any number of components - affects exactly the node of that name below the container or group it is used on: missing intermediate components become groups, nothing outside is touched, a refused operation changes nothing, and the same name afterwards finds, opens and lists the node that was created.",
 ["inputs","configurations","histories"],"all names of existing and missing components, on files and groups, all modes and formats",
 "Tests use a few names without leading slashes and never look at what else appeared in the store.",
 ["src/python/module/z5py/group.py","src/python/module/z5py/dataset.py","src/python/module/z5py/file.py"],[("name resolution","Group.create_group / require_group / create_dataset / require_dataset / __getitem__ / __delitem__")],["nodes in the store; objects returned"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))

#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))

p("C01", "A written chunk reads back bit for bit",
  "For every array (any rank including 0, any chunk shape, element type, byte order, memory layout and codec configuration), a chunk written at an in-bounds grid position is returned bit for bit, at that position, by every later read until it is overwritten or deleted: through the writing handle or one opened afterwards, as a fresh chunk or into a reused buffer whatever that buffer held before. The last successful write wins. A position never written, or deleted since, reads as absent, never as an error or as data.",
  ["inputs", "configurations", "histories"],
  "all element types x byte orders x codecs and their configurations x ranks x chunk shapes x data contents x histories of writes, deletes and reads",
  "The tests write one chunk per (type, codec) pair with default codec settings, native byte order and one shape; byte order, codec options, chunk sizes around the internal block sizes, NaN bit patterns and overwrite/delete histories are not sampled.",
  ["src/chunk.rs", "src/compression/mod.rs", "src/compression/lz.rs", "src/compression/gzip.rs", "src/compression/bzip.rs", "src/compression/xz.rs", "src/storage.rs", "src/store/filesystem.rs"],
  [("chunk encode/decode per element type", "src/chunk.rs vec_data_chunk_impl!, bool, u8, f16 impls"), ("codec selection", "src/compression/mod.rs CompressionType"), ("truncate then write under lock", "src/store/filesystem.rs set")],
  ["write_chunk / read_chunk / read_chunk_into / delete_chunk results"])

p("C02", "Stored chunks are standard codec streams of the declared bytes",
  "The bytes stored for a chunk are exactly one standard stream of the array's declared codec whose decoded content is the chunk's elements in the order given, each in the array's declared byte order (booleans as one byte 0 or 1), with nothing before, between or after. Conversely, a chunk file produced by any other conforming encoder of that codec, at any of its settings, reads back as the elements it encodes (for booleans, any byte other than 0 as true).",
  ["inputs", "configurations"],
  "all element types x byte orders x codecs x codec settings x chunk sizes x contents, checked against independent encoders and decoders",
  "Tests compare one 6-element big-endian i16 chunk per codec with a byte literal; everything else only goes through the library's own encoder and decoder, where symmetric errors cancel.",
  ["src/chunk.rs", "src/compression/mod.rs", "src/compression/lz.rs", "src/compression/gzip.rs", "src/compression/bzip.rs", "src/compression/xz.rs", "src/compression/raw.rs"],
  [("endian-aware element writers and readers", "src/chunk.rs"), ("codec encoder/decoder wrappers", "src/compression/*.rs")],
  ["raw bytes of the chunk file", "read_chunk of a foreign chunk file"])

p("C03", "Nodes and chunks live at their specified, distinct storage keys",
  "Array and group metadata of node <path> are stored at meta/root/<path>.array<suffix> and meta/root/<path>.group<suffix>, where <suffix> is the hierarchy's declared metadata key suffix (.json by default), and the chunk at grid position (i,j,...) at data/root/<path>/c<i><sep><j>... with the array's declared separator, also for the root node (an empty path). Leading and trailing slashes of a path are insignificant; any other difference in node path, kind or grid position means a different storage location. The chunk URI names exactly the file in which that chunk is stored.",
  ["inputs", "configurations"],
  "all node paths (nested, dotted, unicode, root), metadata suffixes, chunk separators, ranks and grid coordinates up to 2^64-1",
  "A doc test and one unit test look at two chunk keys for one path; dotted names, the root node, other separators and suffixes and large coordinates are unsampled.",
  ["src/lib.rs", "src/storage.rs", "src/store/filesystem.rs"],
  [("metadata keys", "src/lib.rs Hierarchy::array_metadata_key/group_metadata_key/add_extension"), ("chunk keys", "src/storage.rs get_chunk_key"), ("URI", "src/store/filesystem.rs uri")],
  ["files that appear on disk", "get_chunk_key and get_chunk_uri results"])

p("C04", "Region reads and writes behave like one dense array",
  "Any history of region writes (from arrays of either axis order or strided views), chunk writes and chunk deletions followed by a region read gives, for every element inside the array's shape, the value most recently written to that element, or the fill value if its chunk is absent or it was not yet covered by any write to that chunk. This holds for every box (inside, overlapping or outside the array, or empty), chunk shape, rank and memory layout, and the box returned has exactly the requested shape with elements at their requested coordinates. Writing a region changes no element outside it.",
  ["inputs", "histories", "configurations"],
  "all array/chunk shapes, ranks, memory layouts, boxes and histories of writes and deletes",
  "The tests write one region and read it back, with column-major layout only, or read pre-written chunks; unaligned overwrites, row-major partial writes, deletions between writes, out-of-range and empty boxes and rank 0 are not covered.",
  ["src/ndarray.rs", "src/chunk.rs", "src/storage.rs"],
  [("chunk iteration over a box", "src/ndarray.rs bounded_coord_iter"), ("partial chunk read-modify-write", "src/ndarray.rs write_ndarray"), ("copy from chunk view to box view", "src/ndarray.rs read_ndarray_into_with_buffer"), ("layout", "src/ndarray.rs shape_ndarray_shape/extend_from_array")],
  ["read_ndarray / read_ndarray_into / read_ndarray_into_with_buffer results", "read_chunk after region writes"])

p("C05", "Uninitialised elements read as the array's declared fill value",
  "An array's fill value is its metadata's fill_value interpreted in the element type: JSON booleans for bool, integers for integer types, numbers or the strings \"NaN\", \"Infinity\" and \"-Infinity\" for floats of every width; null or a missing entry means zero (false). Region reads return that value for every element in an absent chunk, and a partial region write stores it in the not yet written rest of a new chunk. A fill value that the element type cannot represent by kind or integer range is an error for region reads and writes, not some other value.",
  ["inputs", "configurations"],
  "all element types x JSON fill values (valid and invalid) x boxes over absent, partially written and present chunks",
  "No test ever sets a fill value on an array it reads from; only the null default (zero) is exercised.",
  ["src/lib.rs", "src/ndarray.rs", "src/data_type.rs"],
  [("effective fill value", "src/lib.rs get_effective_fill_value"), ("array pre-fill", "src/ndarray.rs read_ndarray"), ("new partial chunk", "src/ndarray.rs write_ndarray")],
  ["get_effective_fill_value, read_ndarray, read_chunk after a partial write"])

p("C06", "Chunk grid arithmetic partitions the array exactly",
  "For every array shape and chunk shape, the grid extent along each axis is the shape divided by the chunk length rounded up, the number of chunks is the product of the extents, and a grid position is in bounds exactly if it has the array's rank and every coordinate is below the extent. Iterating all chunk coordinates yields each in-bounds position exactly once, and iterating for a box yields exactly the positions whose chunk shares an element with both the box and the array (none for a box that is empty or outside); both report their exact remaining length at every step. The chunk bounds of the in-bounds positions are pairwise disjoint and cover the array.",
  ["inputs"],
  "all ranks, array shapes (including 0, 1 and sizes adjacent to chunk multiples), chunk shapes and boxes",
  "Doc tests check one array shape whose sizes avoid the boundary cases; the iterator test has one shape and compares sets only.",
  ["src/lib.rs", "src/ndarray.rs"],
  [("rounding up", "src/lib.rs u64_ceil_div, get_grid_extent, get_num_chunks, in_bounds"), ("coordinate iterators", "src/ndarray.rs coord_iter, bounded_coord_iter, CoordIterator"), ("chunk bounds", "src/ndarray.rs get_chunk_bounds")],
  ["get_grid_extent, get_num_chunks, get_num_elements, in_bounds, coord_iter, bounded_coord_iter, get_chunk_bounds"])

p("C07", "Bounding box operations are exact set operations",
  "For all boxes of equal rank, an element lies in the intersection exactly if it lies in both boxes, and the intersection is empty exactly if no element does; the union of two boxes is the smallest box whose extent contains the extents of both; the end of a box is offset plus shape per axis; subtracting an origin shifts the box and keeps its shape; a box is empty exactly if some axis has length 0. Intersection and union are commutative up to emptiness and idempotent, and the slice form of a box addresses the same elements.",
  ["inputs"],
  "all pairs of boxes of every rank, including touching, nested, disjoint, empty and very large ones",
  "Two doc tests check one pair of boxes each.",
  ["src/ndarray.rs"],
  [("box algebra", "src/ndarray.rs BoundingBox")],
  ["BoundingBox::intersect, union, end, sub, is_empty, to_ndarray_slice, shape_chunk, shape_ndarray_shape"])

p("C08", "Metadata survives serialisation and storage unchanged",
  "Every array metadata value (shape, element type including raw and extended types with fallback, chunk grid, memory layout, fill value, extensions, attributes, codec with its settings) equals itself after serialising to JSON and back and after creating the array and reading its metadata from this or another handle; every element type string maps to one type and back, and the type's size matches its string. Every document with the fields and spellings of the Zarr v3 core protocol is read as what it says: absent compressor means raw, absent codec options mean their defaults, order C/F, and unknown additional fields are ignored. The stored document is plain JSON with those field names and spellings.",
  ["inputs", "configurations"],
  "all metadata values and all type strings, codec names and option spellings",
  "One document is deserialised and compared; serialisation, raw/extended types, codec options and separators are not round-tripped.",
  ["src/lib.rs", "src/data_type.rs", "src/compression/mod.rs", "src/storage.rs"],
  [("serde derives", "src/lib.rs ArrayMetadata, ChunkGridMetadata, Order, ExtensionMetadata"), ("type strings", "src/data_type.rs Serialize/Deserialize for DataType"), ("codec tags", "src/compression/mod.rs CompressionType")],
  ["serde_json of public metadata types; create_array + get_array_metadata; bytes of the metadata file"])

p("C09", "Malformed or unsupported metadata is an error, never a panic",
  "For every byte string stored as the hierarchy entry point, an array document or a group document, opening the hierarchy, fetching array metadata, testing existence, reading or setting attributes and listing all return normally, without panic or abort. Opening a hierarchy, or fetching the metadata of an array, whose document is not valid (bad JSON, missing or mistyped fields, unknown element type or codec, chunk shape of another rank or with a zero length) is an error. A hierarchy whose declared protocol version does not match 3.0, or a hierarchy or array with an extension that must be understood, is refused; extensions that need not be understood are accepted. No declared codec setting makes a later chunk read or write panic.",
  ["inputs"],
  "all byte strings in place of a metadata document; all declared versions, extensions, type strings and codec settings",
  "Only well-formed documents appear in the tests.",
  ["src/data_type.rs", "src/lib.rs", "src/storage.rs", "src/store/filesystem.rs", "src/compression/xz.rs", "src/compression/bzip.rs"],
  [("type string parser", "src/data_type.rs DataTypeVisitor"), ("must_understand check", "src/storage.rs get_array_metadata, src/store/filesystem.rs read_entry_point_metadata"), ("version gate", "src/store/filesystem.rs open/open_or_create, src/storage.rs get_version"), ("codec settings", "src/compression/*.rs")],
  ["Result of open, open_or_create, get_array_metadata, list_attributes, set_attributes, list_nodes, exists"])

p("C10", "Attributes are a per-node map merged at top level",
  "The attributes of a node equal, after any history of attribute updates, the initial attributes overlaid in order with each update's top-level keys (a value replaces the old one entirely, null included), read through any handle. Updating attributes changes nothing else about the node (its metadata stays equal, including fields this library does not know) and nothing about any other node. Reading or updating attributes of a node that does not exist is an error.",
  ["inputs", "histories"],
  "all nodes, JSON values, keys (including ones that look like metadata fields) and update histories",
  "One node gets three fixed updates; interleaving with other nodes, arrays with rich metadata, unknown fields and unusual keys are unsampled.",
  ["src/storage.rs", "src/lib.rs"],
  [("top-level merge and rewrite", "src/storage.rs set_attributes, merge_top_level"), ("attribute extraction", "src/storage.rs list_attributes")],
  ["list_attributes, get_array_metadata, bytes of the metadata file"])

p("C11", "Groups and arrays follow a create/exist/remove life cycle",
  "Over any history of creating groups and arrays, writing and removing, a node exists exactly if it was created explicitly and neither it nor an ancestor was removed since; it is an array exactly if it was created as one. Creating a group is idempotent and keeps its attributes; creating a node where one of the other kind exists, or an array where any node exists, fails and changes nothing. Removing a node removes it, all descendants and all their chunks, so that none of them can be read or come back when a node of the same name is created again, and leaves every other node intact.",
  ["histories", "inputs"],
  "all histories of create_group, create_array, write_chunk, set_attributes and remove over trees of nodes, with sibling names that are prefixes of each other",
  "Tests create one node at a time and remove one array; conflicts, removal of groups with descendants, re-creation and prefix-named siblings are unsampled.",
  ["src/storage.rs", "src/store/filesystem.rs"],
  [("conflict checks", "src/storage.rs create_group/create_array"), ("removal of metadata and data prefixes", "src/storage.rs remove, src/store/filesystem.rs erase_prefix"), ("existence", "src/storage.rs exists, src/lib.rs array_exists")],
  ["exists, array_exists, get_array_metadata, list_attributes, read_chunk after each step"])

p("C12", "Listings contain every entry exactly once and nothing else",
  "Listing the nodes under a path returns, once each and as bare names relative to that path, exactly the explicit children (groups and arrays, whatever their names) and the implicit groups that contain some descendant. At store level, listing a directory returns exactly the full keys and the prefixes directly below it, and listing a prefix or the whole store returns every stored key below it exactly once as a key that can be fetched.",
  ["histories", "inputs"],
  "all trees of nodes, names (short, dotted, ending in array/group/json, unicode), prefixes with and without slashes",
  "The only listing test has one symlinked directory in the root and no explicit node.",
  ["src/storage.rs", "src/store/filesystem.rs"],
  [("node names from keys", "src/storage.rs list_nodes"), ("directory listing", "src/store/filesystem.rs list_dir"), ("recursive listing", "src/storage.rs list_prefix")],
  ["list_nodes, list_dir, list_prefix, list"])

p("C13", "No path argument reaches outside the hierarchy's directory",
  "For every node path or store key string, no operation of a filesystem hierarchy opens, creates, changes, lists, tests or deletes a filesystem object outside the directory it was opened on (symbolic links placed inside it aside); keys that lexically leave that directory at any point are refused with an error, and keys that merely contain dot or dot-dot components but stay inside keep working. Absolute-looking paths are taken relative to the hierarchy.",
  ["inputs"],
  "all strings as node paths and keys, through every public operation",
  "One test checks six strings against the path resolver alone, and none leaves the directory and comes back.",
  ["src/store/filesystem.rs", "src/lib.rs"],
  [("nesting check", "src/store/filesystem.rs get_path"), ("path canonicalisation", "src/lib.rs canonicalize_path")],
  ["system calls with a path argument issued by each operation"])

p("C14", "Each operation changes only the keys it names; reads change nothing",
  "A chunk write or delete changes at most the one stored chunk it names, an attribute update or node creation at most that node's own metadata document, and a removal only the removed node's metadata, descendants and chunks; every other stored file keeps its exact bytes and no other file appears or disappears. Reading chunks or regions, fetching or listing metadata, attributes, nodes or keys, testing existence, and opening an existing hierarchy (also with open-or-create) change no file at all, and a region write changes only the chunks that share an element with the region.",
  ["inputs", "histories"],
  "all operations over all reachable hierarchy states, including absent targets",
  "No test compares the stored state before and after an operation.",
  ["src/storage.rs", "src/store/filesystem.rs", "src/ndarray.rs"],
  [("key-wise set/erase", "src/store/filesystem.rs set, erase, erase_prefix"), ("chunk selection", "src/ndarray.rs write_ndarray")],
  ["file tree with contents before and after each call"])

p("C15", "A rejected operation leaves stored data untouched",
  "Whenever an operation is refused because of its arguments (a chunk of the wrong number of elements or the wrong element type, a region of the wrong rank or with a wrongly shaped target, creating over an existing node, attributes of a missing node, a path outside the hierarchy, an unusable fill value), it returns an error and every stored byte, the set of stored files and all later reads are as if it had never been called. In particular a chunk that was readable before a refused overwrite stays readable with its old content, and a position that was absent stays absent.",
  ["inputs", "histories"],
  "all operations with invalid arguments over all reachable hierarchy states",
  "Tests only check that a short chunk write returns an error, not what it did to the stored chunk.",
  ["src/storage.rs", "src/chunk.rs", "src/ndarray.rs", "src/store/filesystem.rs"],
  [("validation before storing", "src/storage.rs write_chunk, src/chunk.rs DefaultChunkWriter"), ("conflict checks", "src/storage.rs create_group/create_array")],
  ["Result of the call; file tree with contents before and after"])

p("C16", "Storage failures are reported, never swallowed",
  "If any storage call made by an operation fails (file open, creation, lock, truncate, write, read, stat, unlink, directory creation or removal; no space, I/O error, permission denied), whether at the first or the last byte, the operation either returns an error or has achieved its full effect: a write acknowledged as successful is readable, an acknowledged delete or removal is gone, and a read never reports a failing chunk as absent or returns partial or wrong data. It does not panic, and the data of all other chunks and nodes is unaffected. Retrying a failed chunk write, deletion or removal once the fault is gone succeeds.",
  ["fault_sequences", "inputs"],
  "each storage call of each operation failing with each errno, for every codec and data size, on the filesystem and on any store",
  "No test injects a storage failure.",
  ["src/chunk.rs", "src/compression/lz.rs", "src/storage.rs", "src/store/filesystem.rs"],
  [("writer completion and flush", "src/chunk.rs DefaultChunkWriter::write_chunk, src/storage.rs set closures"), ("existence tests", "src/store/filesystem.rs get, exists, erase, erase_prefix")],
  ["operation results with the n-th system call made to fail; results over a store whose readers and writers fail"])

p("C17", "A crash during an operation harms only that operation's target",
  "If the process dies at any point inside a chunk write, chunk deletion, region write, attribute update, node creation or removal, then the hierarchy still opens, and every node, attribute map and chunk that the interrupted operation does not target is present and unchanged. A targeted chunk afterwards reads as its old value, its new value, absent or an error, never as other data. Repeating an interrupted chunk write, chunk deletion, region write or removal to completion gives the same state as if it had not been interrupted.",
  ["crash_points", "histories"],
  "every system call of every mutating operation as crash point, over varied hierarchy states",
  "No test interrupts an operation.",
  ["src/store/filesystem.rs", "src/storage.rs", "src/ndarray.rs"],
  [("single-file writes", "src/store/filesystem.rs set"), ("bottom-up removal", "src/store/filesystem.rs erase_prefix, src/storage.rs remove")],
  ["state of the hierarchy as read by a fresh process after the crash"])

p("C18", "Corrupt chunk data gives an error or a full chunk, safely",
  "For every byte string stored as a chunk (truncated, bit-flipped, spliced, random, or a valid stream of too few elements or of another codec), reading that chunk returns either an error or exactly the chunk's number of elements, without panicking, aborting, hanging or any memory error in the library or its codecs. A stream that decodes to fewer bytes than the chunk needs is always an error, in a region read too. A failed read does not disturb later reads, also not through the same reused buffer. A stream that decodes to very much more than the chunk needs does not make reading it take memory for all of that.",
  ["inputs"],
  "all byte strings as stored chunk, for every codec, element type and chunk size",
  "The tests only read chunks the library or a spec example wrote; one test checks an empty raw chunk.",
  ["src/chunk.rs", "src/compression/mod.rs", "src/compression/lz.rs", "src/compression/lz_pure.rs"],
  [("read_exact into a sized buffer", "src/chunk.rs read_data"), ("codec decoders", "src/compression/*.rs")],
  ["Result of read_chunk, read_chunk_into and read_ndarray; AddressSanitizer reports"])

p("C19", "Concurrent operations on one key are atomic (linearizable)",
  "When threads or handles concurrently write, delete and read the same chunk, every read returns absent or exactly one complete written value, and the results of all operations are explained by some order of them that respects real time. Every attribute read or metadata read that overlaps attribute updates of that node returns a complete document reflecting exactly some of the updates applied so far, and no acknowledged update is lost. No such operation (chunk write, delete or read, attribute update, attribute or metadata read) fails because another one runs at the same time.",
  ["schedules", "histories"],
  "all interleavings, at system-call granularity, of small sets of concurrent operations on shared keys",
  "No test runs two operations concurrently.",
  ["src/store/filesystem.rs", "src/storage.rs"],
  [("advisory file locks", "src/store/filesystem.rs get/set/erase/erase_prefix"), ("truncate after lock", "src/store/filesystem.rs set")],
  ["call and return events of each operation under a controlled scheduler"],
  state=[("file lock", "shared while a value is being read, exclusive while written or erased", "src/store/filesystem.rs")])

p("C20", "Data is only accessible as the array's own element type",
  "Writing a chunk or region, or reading a stored chunk or a region that includes one, with an element type other than the array's declared one is refused with an error, whatever the sizes, except that byte order never matters and an extended type is accessed as its declared fallback; with the right type it always works. The type-dispatch helpers agree: an element type's reported size, its reflected Rust type's size and the type chosen by matching on it are the same for every type, and an extended type without fallback is an error, not a panic.",
  ["inputs", "configurations"],
  "all pairs of declared element type (core, raw, extended) and accessed type, byte orders, for chunk and region access",
  "The tests only ever use the matching native type.",
  ["src/chunk.rs", "src/data_type.rs"],
  [("type check", "src/chunk.rs check_array_type, src/data_type.rs eq_modulo_endian"), ("reflection", "src/data_type.rs ReflectedType, data_type_match!, effective_type")],
  ["Result of write_chunk, read_chunk, read_chunk_into, read_ndarray, write_ndarray for each pair"])

p("C21", "Readers and writers exclude each other, without deadlock",
  "While a value obtained from the store is still being read, no write, erase or removal of that key completes, and while a value is being written, no read, write, erase or removal of that key completes; concurrent readers of one key do not exclude each other. Once the holders are done, every waiting operation completes, operations on different keys never wait for each other, and no set of concurrent operations deadlocks; no operation keeps a key locked after it returned, whether it succeeded or failed.",
  ["schedules", "histories"],
  "all pairs of store and hierarchy operations, held at every point of an open reader or writer, on equal and different keys",
  "No test holds a reader or writer open while another operation runs.",
  ["src/store/filesystem.rs"],
  [("advisory file locks", "src/store/filesystem.rs get/set/erase/erase_prefix")],
  ["completion of an operation while another thread holds a reader or writer; blocked-thread states"],
  state=[("file lock", "held from open until the reader or writer is dropped", "src/store/filesystem.rs")])

p("C22", "The hierarchy behaves the same over every store",
  "Any sequence of hierarchy operations gives the same results (values, absence, kind of failure) on the filesystem and on any other store that implements the store interface, including one whose readers and writers transfer arbitrarily few bytes per call, and all data reaches the store through it. The filesystem store itself behaves as a map from keys to byte strings: get returns the last set value or nothing, exists tells whether there is one, setting a shorter value leaves no trace of a longer one, and erasing a key or prefix removes exactly that key or everything below that prefix, reporting success also when nothing was there.",
  ["histories", "inputs"],
  "all histories of hierarchy and store operations, over the filesystem and over in-memory stores with adversarial transfer sizes",
  "All tests use the filesystem store; store operations are never tested by themselves.",
  ["src/storage.rs", "src/store/filesystem.rs", "src/lib.rs"],
  [("blanket implementations over stores", "src/storage.rs"), ("key-value operations", "src/store/filesystem.rs")],
  ["results of the same history on two stores; set/get/exists/erase/erase_prefix results"])

p("C23", "All feature builds read and write each other's data",
  "Builds with different feature selections (native or pure-Rust LZ4 and gzip) give the same results: every chunk written by one build with any codec settings is read back identically by the other, for every chunk size and content, and each build round-trips its own data. Codec names and settings parse, print and serialise identically in every build that has the codec.",
  ["configurations", "inputs"],
  "pairs of feature builds x codecs and settings x chunk sizes and contents",
  "The pure-Rust LZ4 build is only tested with one 500-byte chunk against itself; its other tests fail at this commit, and no test exchanges data between builds.",
  ["src/compression/lz_pure.rs", "src/compression/lz.rs", "src/compression/gzip.rs", "src/compression/mod.rs", "Cargo.toml"],
  [("pure-Rust LZ4 frames", "src/compression/lz_pure.rs"), ("feature gates", "src/compression/mod.rs")],
  ["chunk files exchanged between the builds"])

p("C24", "Operations need only what they are about",
  "Reading, writing or deleting a chunk and reading or writing a region depend only on the stored chunks that share an element with that chunk or with the region's part inside the array, and a region write does not depend on the old value of a chunk whose whole nominal extent it covers. Operations on a node's metadata, attributes or existence depend only on that node's own documents, and chunk and region operations rely on the metadata they are given, not on stored documents. Whatever is stored at any other key of the hierarchy (a damaged, inaccessible or missing value) changes neither the result nor the effect, nor is it changed. Writing a damaged chunk, or covering it by a region write, makes it readable again; deleting it makes it absent.",
  ["inputs", "histories", "faults"],
  "all hierarchies x operations x sets of other keys that are damaged, inaccessible or deleted",
  "No test has a damaged value anywhere, so over-reading a neighbouring chunk, a wholly replaced chunk or another node's document costs nothing there.",
  ["src/ndarray.rs", "src/storage.rs", "src/store/filesystem.rs", "src/lib.rs"],
  [("chunks of a box", "src/ndarray.rs bounded_coord_iter"), ("read before a partial write", "src/ndarray.rs write_ndarray"), ("documents of a node", "src/storage.rs exists, set_attributes, list_attributes")],
  ["results and effects of each operation while other keys are damaged"])

p("C25", "A hierarchy opens as what it was created as",
  "Opening where there is no hierarchy (a missing or empty directory, one with other files, one merely inside another hierarchy, a file, an unusable entry point) is an error and changes nothing. open_or_create there makes missing directories and one entry point document, zarr.json, with exactly the fields and values of the Zarr v3 core protocol (format and encoding URIs, key suffix .json, no extensions), leaving what else is there as it was; where it cannot, it is an error. A later open or open_or_create, by any spelling of the path (trailing slashes, '.' and '..', relative, through symbolic links, which meta and data may be too), or of the path its directory was since moved or copied to, is the same hierarchy, as is a clone of a handle, sees everything stored in it, and changes no byte of it. Its metadata key suffix is the declared one, whichever software wrote the entry point, and its version matches the protocol's. Hierarchies in other directories, beside it or (outside meta and data) inside it, share nothing with it: an operation changes only keys under meta/ and data/ of the hierarchy it was called on.",
  ["inputs", "configurations", "histories"],
  "all states of the directory x spellings of its path x entry points x hierarchies beside and in each other x histories through several handles",
  "Tests create one fresh hierarchy in a temporary directory each; reopening, other path spellings, other suffixes and several hierarchies are hardly sampled.",
  ["src/store/filesystem.rs", "src/lib.rs", "src/storage.rs"],
  [("open", "src/store/filesystem.rs open, open_or_create, read_entry_point_metadata"), ("keys to paths", "src/store/filesystem.rs get_path"), ("version", "src/storage.rs get_version")],
  ["open, open_or_create, get_version, the directory trees of all hierarchies"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x, sch)
    print("valid", len(P))
except ImportError:
    print("written", len(P))

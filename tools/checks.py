"""The checks: stages of their runs, what they must observe, and what the evidence says."""


def stages(build="native", extra=(), **kw):
    return [dict(build=build, **kw)] + [dict(e) for e in extra]


TRUST = "the reference model and generators in /verif/harness (independent of the library), rustc, the kernel"

CHECKS = {}


def check(prop, technique, rule, note, level="exploration", quick=None, thorough=None, observe=(), assumptions=()):
    CHECKS[prop] = dict(
        technique=technique,
        rule=rule,
        note=note,
        level=level,
        quick=quick or stages(),
        thorough=thorough or stages(secs=240),
        observe=list(observe),
        assumptions=list(assumptions) or [TRUST],
    )


HELD = "Held on the generated executions counted in the evidence file; nothing is proved. "

check(
    "C01",
    "runtime monitoring: executable model of all chunks against random histories",
    "Random arrays (12 element types, both byte orders and layouts, every codec and settings, ranks 0-5, sizes around codec block "
    "boundaries) and random histories of writes, deletes and reads through several handles; every read is compared bit for bit "
    "with a map from grid position to bytes. A case is non-trivial if it wrote something; distinct by array and history.",
    HELD + "The model is a map from grid positions to written bytes.",
    observe=["writes", "overwrites", "deletes", "reads", "absent_reads"],
)
check(
    "C02",
    "runtime monitoring: independent codecs (Python zlib/bz2/lzma, own LZ4 frame codec) as oracle on stored bytes",
    "Chunks written by the library are decoded by an independent decoder that must consume the whole file; chunks encoded by "
    "independent encoders at random settings are read by the library. Non-trivial: at least one stream compared; distinct by array, "
    "settings and data.",
    HELD + "Trusts Python's gzip, bz2 and lzma modules and the harness's LZ4 frame codec as the standard.",
    quick=stages(count=2400) + stages("pure", count=2400, secs=50),
    thorough=stages(secs=200) + stages("pure", secs=200),
    observe=["odd_booleans", "streams_gzip", "streams_bzip2", "streams_xz", "streams_lz4", "streams_raw"],
)
check(
    "C03",
    "runtime monitoring: file-system differ against the specified key function",
    "Random nodes (odd names, nested, root), key suffixes, separators and grid positions; after each write the only new file must "
    "be the one at the specified key and named by the chunk URI. Distinct by suffix, path, separator and position.",
    HELD,
)
check(
    "C04",
    "runtime monitoring: dense reference array against random region histories",
    "Random arrays and histories of region writes (sources in C and Fortran order, strided, with permuted or inverted axes), chunk writes and deletes, then region reads "
    "of random boxes compared element by element with a dense model. Distinct by array and history.",
    HELD,
)
check(
    "C05",
    "runtime monitoring: fill value oracle over all element types and JSON values",
    "Every element type with representable and unrepresentable fill values, read where absent and after partial region writes. "
    "Distinct by type, fill value and region.",
    HELD,
)
check(
    "C06",
    "runtime monitoring: brute-force coordinate sets and iterator protocol monitor",
    "Random shapes, chunk shapes and boxes (also empty, outside, huge coordinates); iterators are checked step by step against "
    "explicit sets. Distinct by shapes and box.",
    HELD,
)
check(
    "C07",
    "runtime monitoring: brute-force set membership against box algebra",
    "Random pairs of boxes of rank 0-5 (overlapping, touching, nested, empty, far from the origin) compared with membership of "
    "points. Distinct by box pair.",
    HELD,
)
check(
    "C08",
    "runtime monitoring: round-trip oracle and independent document generator",
    "Random array documents (all spellings, optional fields missing, unknown fields) are parsed, compared field by field with what "
    "they say, serialised, stored and read back. Distinct by document.",
    HELD,
)
check(
    "C09",
    "runtime monitoring: panic and verdict oracle over invalid and unsupported documents and bytes",
    "Valid documents broken in one known way (and documents that are valid but unusual), random bytes, entry points with every kind of "
    "version and extension list; the harness knows which must be refused and which accepted, and every operation must return. "
    "Distinct by document.",
    HELD,
    observe=["invalid_documents", "invalid_bytes", "invalid_entry_points", "chunk_io", "codec_settings"],
)
check(
    "C10",
    "runtime monitoring: attribute map model and document differ over random histories",
    "Random nodes (groups, arrays, documents of other writers with unknown fields or no attributes) in a directory or a hostile "
    "in-memory store, and histories of attribute updates, removals and creations through several handles; after each step the "
    "attributes, the rest of each document and all other files are compared with the model. Distinct by history.",
    HELD,
    observe=["updates", "replaced", "varied", "missing_nodes", "recreated", "directory", "memory"],
)
check(
    "C11",
    "runtime monitoring: node tree model compared with store and API after every operation",
    "Random histories of creating, removing, attribute updates and chunk IO on related paths (parents, children, common prefixes, "
    "names like the storage layout), in a directory or an in-memory store with various key suffixes; after each step the exact set "
    "of stored keys and existence, kind, attributes, metadata and chunks of every node are compared with the model. Distinct by history.",
    HELD,
    observe=["created_groups", "created_arrays", "refused_creations", "creations_over_unusable_documents", "recreated_groups", "removals", "removals_with_descendants", "reads_of_removed"],
)
check(
    "C12",
    "runtime monitoring: listings compared with the model's node set and the store's key set",
    "Random trees of nodes (odd names, key suffixes, stray files, removals) listed at random paths, and random keys set and erased; "
    "each listing must be the exact set, each listed key fetchable. Distinct by history.",
    HELD,
    observe=["entries", "keys_listed", "removals", "store_level", "with_stray_files", "two_documents", "linked_directories", "linked_files"],
)
check(
    "C13",
    "runtime monitoring: system-call interposer that checks every path the library touches against the hierarchy's directory",
    "Random keys and node paths (dots, dot-dots that stay inside or leave, absolute looking, odd names) through every operation of "
    "a directory hierarchy; each path argument of each intercepted libc call is resolved and must lie inside, escapes are blocked. "
    "Leaving keys must be refused, staying ones must work. Distinct by operations and keys.",
    HELD + "Calls are intercepted at the libc symbols; a raw system call would bypass the interposer (the sentinel files around the hierarchy would still show a change).",
    observe=["leaving", "staying", "deep_leaving", "deep_staying", "keys_with_dots", "nodes_with_dots", "calls_observed"],
)
check(
    "C14",
    "runtime monitoring: byte-exact store differ and system-call log against the set of keys each operation may change",
    "Random worlds (nodes, chunks, stray files) and histories of all operations; after each the full content of the store is compared "
    "with that before, changed keys must be ones the operation names, reads must make no changing call. Distinct by history.",
    HELD,
    observe=["reads", "writes", "changed_keys", "failing_reads", "opened", "refused_to_open", "calls_observed"],
)
check(
    "C15",
    "runtime monitoring: byte-exact store differ and model-based reads after each refused operation",
    "Random worlds with stored data of every codec, byte order and size; operations refused because of each kind of argument (wrong "
    "element count or type, wrong rank, wrong target, conflicts, missing nodes, paths outside, unusable fill values), over absent "
    "and stored positions. The store must be byte for byte as before and the model must still explain all reads. Distinct by world "
    "and operation.",
    HELD,
    observe=[
        "wrong_count_absent",
        "wrong_count_overwrite",
        "wrong_type_absent",
        "wrong_type_overwrite",
        "wrong_type_region",
        "wrong_type_read",
        "wrong_rank",
        "wrong_target",
        "bad_fill",
        "no_fallback",
        "create_array_over",
        "create_group_over",
        "attributes_of_missing",
        "metadata_of_missing",
        "outside",
        "accepted_operations",
        "reads_after",
        "files_compared",
    ],
)
check(
    "C16",
    "runtime monitoring with fault injection: each storage call of each operation made to fail, results judged by the reference model",
    "Random worlds and operations, on the filesystem (failing or short system calls, through an interposed libc) and on an in-memory "
    "store (failing readers, writers and store calls). Each operation is run without failures to count its storage calls, then once "
    "for each call (at most 60 of them) with that call failing with a random errno, once or from then on. Distinct by store, suffix "
    "and history.",
    HELD + "ENOENT is not injected (it truthfully means absence). Faults are failing system calls, not silent data corruption.",
    level="fault_enumeration",
    quick=stages(count=9000),
    observe=["faults_injected", "reported", "ok_despite_fault", "retries", "failed_retries", "openings"],
)
check(
    "C20",
    "runtime monitoring: every pair of declared and accessed element type against the expected verdict",
    "Random arrays of every declared type (core, raw, extended with and without fallback, both byte orders) accessed with every Rust "
    "element type through chunk and region reads and writes; right types must work and give the data, wrong ones must be refused. "
    "The dispatch helpers are compared for every type. Distinct by declared type, accessed type and operation.",
    HELD,
    observe=["right_type", "wrong_type", "helper_checks"],
)
check(
    "C17",
    "runtime monitoring with crash injection: the process dies at each changing system call, a fresh handle is judged by the reference model",
    "Random worlds and mutating operations on a directory. Each operation is run once to count its changing system calls, then in a "
    "forked process that dies before (or half way through) each of them (at most 40); a fresh handle must open the hierarchy, "
    "everything not targeted must be unchanged, targeted chunks old, new, absent or an error, and repeating the operation (which may "
    "die once more) must give the uninterrupted state. Distinct by suffix and history.",
    HELD + "The death of a process is simulated, not that of the machine: what was written before it is kept.",
    level="fault_enumeration",
    quick=stages(count=3000),
    observe=["crashes", "repeated", "repeated_crashes", "others_checked", "target_absent", "target_error", "target_new", "target_old"],
)
check(
    "C18",
    "AddressSanitizer and runtime monitoring: corrupt streams through all read paths, with independent decoders as oracle",
    "Random arrays of every codec whose chunks are replaced by truncated, bit-flipped, spliced, random, too short, too long, foreign "
    "or other codecs' streams (also streams that decode to 96 MiB, with the most memory allocated measured, mutations of foreign encoders' streams and LZ4 headers with right checksums), in a directory or "
    "an in-memory store with short reads; read as chunk, into new and used buffers and in regions, natively, with the pure-Rust codecs, "
    "and with library and C codecs under AddressSanitizer. Distinct by streams.",
    HELD + "The C code of LZ4 and bzip2 is instrumented; liblzma and zlib are the system's, called from instrumented code. Data of streams that are corrupt beyond truncation "
    "is compared with Python's decoders as far as these decode them.",
    quick=stages("native", [dict(build="pure", count=2500, secs=60), dict(build="asan", count=2500, secs=120)], count=5000),
    thorough=stages("native", [dict(build="pure", secs=150), dict(build="asan", secs=240), dict(build="asan_pure", secs=150)], secs=150),
    observe=["truncated", "short", "long", "bombs", "appended", "other_codec", "garbage", "mutated", "random", "full_chunks", "errors", "region_errors", "reused_buffers", "compared_with_reference"],
)
check(
    "C19",
    "runtime monitoring with schedule control: recorded histories of threads at system-call granularity, checked for linearizability",
    "Threads with their own or shared handles write, delete and read chunks, and update and read attributes and metadata, of few nodes of "
    "a directory; the interposed libc lets a seeded scheduler switch between them at each system call (or they run freely with random "
    "delays). Each history of calls and results must have an order that explains it and respects real time, nothing may fail. Distinct "
    "by interleaving.",
    HELD + "Switches happen at system calls, which is where threads and processes that share a hierarchy can influence each other. The "
    "excuses for the two recorded findings apply only to histories in which the recorded race happened.",
    quick=stages(count=8000),
    observe=["histories_checked", "operations", "overlapping_operations", "switches", "free_runs", "scheduled_runs", "lock_waits"],
)
check(
    "C21",
    "runtime monitoring with schedule control: operations started while another thread holds a reader or writer of the key",
    "One thread holds a reader or writer obtained from the store (or sits in the middle of an operation, or fails in it) while others "
    "operate on the same key, its node, or other keys; excluded ones must not return before the hold ends, all others must, and all "
    "must in the end; lock state is inspected after each operation. Also crowds of random operations that must all finish. Distinct by "
    "pair of operations and interleaving.",
    HELD + "Exclusion is observed between handles and threads of one process through the interposed lock calls.",
    quick=stages(count=14000),
    observe=["holds", "excluded", "shared", "unrelated", "either", "results_checked", "leak_checks", "operations_failed", "operations_succeeded", "crowds", "lock_waits"],
)
check(
    "C22",
    "runtime monitoring: the same histories over a directory and a hostile in-memory store compared; filesystem store against a map",
    "Random worlds and histories (also refused operations, unusual paths, damaged chunks and documents) performed on a directory and on an "
    "in-memory store whose readers and writers transfer few bytes, buffer and are interrupted: results, error kinds and stored keys "
    "must agree, also after exchanging the stored bytes. The filesystem store's own operations are compared with a map after each step. "
    "Distinct by history.",
    HELD + "Empty directories in listings are the recorded finding of C12.",
    observe=[
        "successes_compared", "errors_compared", "key_sets_compared", "final_reads_compared", "damaged", "values_set", "shorter_values_set",
        "values_got", "absent_got", "existence_tests", "documents_parsed", "erased", "erased_nothing", "prefixes_erased", "prefixes_erased_nothing", "listings",
    ],
)


def exchange(builds, count):
    """All builds write, then read and modify each other's data, then read what came back."""
    return [dict(build=b, stage=s, group=s, count=count, secs=2000, shards=max(1, 8 // len(builds))) for s in range(3) for b in builds]


check(
    "C23",
    "runtime monitoring: builds with different codec features exchange hierarchies in three stages, judged by one reference model",
    "Builds with native and with pure-Rust codecs store random arrays (every codec and setting, chunk sizes around block sizes), read and "
    "modify each other's, and read back what the other made of theirs; what each says about codec names and documents is compared. "
    "Distinct by array and data.",
    HELD,
    quick=exchange(["native", "pure"], 2400),
    thorough=exchange(["native", "pure", "purest"], 5000),
    observe=["own_round_trips", "exchanged", "modified", "returned", "facts_compared", "codec_lz4", "codec_gzip", "codec_raw", "codec_bzip2", "codec_xz"],
)
check(
    "C24",
    "runtime monitoring with fault injection: other keys damaged, made inaccessible or removed around each operation, judged by the reference model",
    "Random worlds on a directory or an in-memory store; before each operation a random set of the keys it is not about (neighbouring "
    "chunks above all, absent ones too, documents, and chunks it replaces entirely) is emptied, overwritten with junk, deleted or made "
    "inaccessible. Its result must be the model's, the damage must be as it was, and after undoing it everything must read as the model says. "
    "Distinct by store, suffix and history.",
    HELD,
    observe=["damaged", "inaccessible", "other_documents", "other_chunks", "replaced_damage", "reads_after", "read_ndarray", "write_ndarray", "read_chunk", "write_chunk", "delete_chunk", "set_attributes", "refused"],
)
check(
    "C25",
    "runtime monitoring: several hierarchies through freshly opened handles against one reference model each and snapshots of the whole tree",
    "Directories in nine states without a hierarchy (some inside another) are opened and created, with the tree compared before and after; and up to four "
    "hierarchies beside and in each other (random suffixes, entry points in other spellings, meta or data sometimes elsewhere) get random operations through kept, cloned "
    "and freshly opened handles by random spellings of the path (relative, dots, slashes, symbolic links; names with spaces, newlines, other bytes than text). Each result must be the model's, "
    "each changed file must belong to the hierarchy operated on, opening must change nothing, and all must match their models in the end. "
    "Distinct by state and name, or hierarchies and history.",
    HELD,
    observe=["created", "refused", "adopted", "reopened", "by_clones", "through_symlinks", "relative_paths", "reads_after", "keys_compared", "hierarchies", "moved", "copied", "swapped", "above_symlinks", "elsewhere", "inside_another", "unusual_parents"],
)

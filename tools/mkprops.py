#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe or [], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("P01", "Path normalization is canonical, idempotent and memory safe",
  "Normalizing any path yields its one canonical form: the root reduced to its minimal form, single '/' separators, no '.' segments, every '..' resolved against the segment before it (kept only at the front of a relative path, dropped at the root of an absolute one), names such as '..a' or '...' left alone, and no trailing separator. Normalizing the result again (unless it newly starts like a drive letter), or normalizing in place, gives the same string. Whatever the size of the output range, nothing outside it is written, the output is NUL terminated when it has room for at least one character, and a result that does not fit is reported as overflow instead of success.",
  ["inputs"], "every path over a separator/dot/letter alphabet up to a bounded length, every output size, separate and overlapping buffers, POSIX and drive-letter roots, short and >32-segment paths",
  "test_path samples a few dozen literal paths; the claim is over every path, every buffer size and both normalization algorithms.",
  ["src/evfs_path.c", "src/evfs.c", "src/util/range_strings.c"],
  [("segment bitmask normalization", "src/evfs_path.c:evfs_vfs_path_normalize"), ("stack fallback for long paths", "src/evfs_path.c:path_normalize_long"), ("root reduction", "src/evfs_path.c:normalize_root_component")],
  observe=["evfs_path_normalize_ex"])

p("P02", "Path split and join helpers obey their documented contract for every path",
  "For every path: the base name is the text after the last separator, the directory name is the text before it (all of a root kept), the extension starts at the last period of the base name unless only periods precede it, and the root component and absolute-path test agree with each other and with the path grammar. Joining two paths produces head, exactly one added separator unless head is empty or only a root, then tail, or fails with overflow without writing outside the output range. No helper ever reads outside the given string.",
  ["inputs"], "every path over a separator/dot/letter alphabet up to a bounded length, every pair of short heads and tails (as strings and as unterminated sub-ranges), every output size, POSIX and drive-letter roots",
  "test_path checks about forty literals; empty strings, lone separators, runs of dots and exact-fit buffers are not among them.",
  ["src/evfs_path.c", "src/evfs.c"],
  [("basename/extname/dirname scanners", "src/evfs_path.c"), ("join", "src/evfs_path.c:evfs_vfs_path_join"), ("element scan", "src/evfs_path.c:evfs_vfs_scan_path")],
  observe=["evfs_path_basename", "evfs_path_extname", "evfs_path_dirname_ex", "evfs_path_join_ex", "evfs_path_root_component_ex", "evfs_path_is_absolute_ex"])

p("P03", "Absolute-path conversion equals normalize(cwd joined with path) or fails",
  "Converting any path to absolute form on a given current directory yields exactly the normalization of the path itself when it is absolute, and of current directory + separator + path when it is relative, with a relative drive prefix kept in front. The result depends neither on the size of the output range, once that has room for the joined path, nor on whether the output overlaps the input. When anything does not fit, or the current directory cannot be had, an error is returned and nothing outside the output range is written.",
  ["inputs", "configurations"], "every bounded path x every bounded current directory x every output size x separate/overlapping/partially overlapping buffers x POSIX and drive-letter roots, on the core and on each backend that keeps its own current directory",
  "The tests convert a handful of paths with one comfortable buffer; the three internal strategies (in place, malloc, overlap) switch on sizes the tests never vary.",
  ["src/evfs_path.c", "src/shim_jail.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/stdio_fs.c"],
  [("no-overlap and malloc strategies", "src/evfs_path.c:evfs_vfs_path_absolute"), ("overlap strategy", "src/evfs_path.c:path_absolute_from_rel_overlap"), ("per-backend current directory", "*__get_cur_dir")],
  observe=["evfs_path_absolute_ex", "evfs_get_cur_dir_ex"])

p("P04", "The VFS registry behaves as a named list with exactly one default",
  "After any sequence of registering, re-registering, unregistering, and unregistering everything, lookup by name finds exactly the file systems registered and not yet unregistered, and there is a default exactly when the list is non-empty, namely the one those operations select. Every operation naming a file system reaches that one, every other goes to the default, and with none registered each reports that no file system exists. Optional operations a file system lacks report no support, and unregistration notifies the file system exactly once.",
  ["histories"], "every sequence of registry operations up to a bounded depth over three file systems (raw and shimmed) and both default flags",
  "test_registration walks one fixed sequence; the default selection depends on list order and on the history.",
  ["src/evfs.c"],
  [("registration list and default", "src/evfs.c:evfs_register, evfs_unregister, evfs_unregister_all"), ("lookup", "src/evfs.c:evfs_find_vfs, evfs__get_vfs")],
  state=[("s_vfs_list", "registered file systems", "src/evfs.c"), ("s_default_vfs", "default file system", "src/evfs.c")],
  observe=["evfs_find_vfs", "evfs_default_vfs_name", "evfs_open_ex and friends"])

p("P05", "The registry stays consistent under every interleaving of threads",
  "With threading enabled, concurrent initialization, registration, lookup, default queries, re-registration and unregistration of distinct file systems leave the registry in a state some sequential order of the same calls would produce, with every call's result explained by that order. No file system is lost, listed twice or left in a cycle, initialization runs once, and no access to the registry is a data race.",
  ["schedules"], "every interleaving (up to a preemption bound) of two to three threads each running short programs of registry calls, for both threading back ends",
  "The test programs are single threaded; the lost-update windows need a preemption between two specific instructions.",
  ["src/evfs.c", "src/evfs_pthread.c", "src/evfs_c11_thread.c"],
  [("registry lock", "src/evfs.c LOCK/UNLOCK"), ("once-only init", "src/evfs_pthread.c, src/evfs_c11_thread.c:evfs__init_once")],
  state=[("s_vfs_list / s_default_vfs", "shared registry", "src/evfs.c")],
  observe=["evfs_register", "evfs_find_vfs", "evfs_default_vfs_name", "evfs_unregister"])

p("P06", "A failed allocation or base operation leaks nothing and leaves the layer usable",
  "If any single memory allocation or any single operation of the underlying file system fails during a call, that call reports failure (or completes correctly), hands back no usable-looking handle on failure, and leaves no memory allocated and no underlying file or directory open beyond what was there before. Repeating the call after the fault clears (and after removing the partial destination of a failed copy) gives the same outcome as if the fault had never happened; only an interrupted write to a rotating log may stay written in part.",
  ["fault_sequences", "histories"], "every operation of the public API over every backend and shim x every allocation index and every underlying-operation index failed once (and all from that index on)",
  "The tests never make malloc or the backend fail; each failure path is a separate point in the product of operations and fault positions.",
  ["src/evfs.c", "src/evfs_path.c", "src/shim_jail.c", "src/shim_rotate.c", "src/shim_trace.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/romfs_common.c", "src/util/dhash.c"],
  [("open/close handle ownership", "src/evfs.c:evfs_vfs_open, evfs_open_dir_ex"), ("cleanup labels", "registration functions of every backend")],
  observe=["return codes, handle pointers, outstanding allocations, open underlying handles"])

p("P07", "A jail never touches anything outside its root",
  "Whatever path is given to any operation of a jail, and whatever its current directory, every path the jail passes to the underlying file system is the jail root or lies below it once normalized, or the operation fails without touching the underlying file system. This holds for absolute, relative, '..'-laden, over-long and mixed-separator paths and for every jail root, including relative ones.",
  ["inputs", "histories"], "every operation x every bounded path over separators, dots and names (plus every length around the path limit) x every reachable jail current directory x several jail roots",
  "test_jail opens one file and reads one directory; containment is a claim over every hostile path.",
  ["src/shim_jail.c", "src/evfs_path.c"],
  [("path rewriting", "src/shim_jail.c:unjail_path"), ("jail current directory", "src/shim_jail.c:jail__set_cur_dir")],
  state=[("cur_dir", "jail-relative current directory", "src/shim_jail.c:JailData")],
  observe=["paths handed to the base VFS"])

p("P08", "Inside its root a jail behaves like the underlying file system",
  "Every operation through a jail has the same result, data and effect as the same operation performed on the underlying file system with the jail root prepended to the path the jail's own current directory resolves. Changing the jail's current directory succeeds only for existing directories, affects only that jail, and what is then reported is an absolute normalized path that resolves relative paths the way it says. Opening, directory listing and closing through the jail leave no underlying handle open.",
  ["histories", "inputs"], "every sequence of file, directory and current-directory operations up to a bounded depth over a small name space, compared step by step with the same sequence on an unjailed twin",
  "The tests run one straight-line sequence; transparency quantifies over all sequences and directories.",
  ["src/shim_jail.c"],
  [("delegation to base VFS", "src/shim_jail.c:jail__*"), ("current directory", "src/shim_jail.c:jail__set_cur_dir, jail__get_cur_dir")],
  observe=["evfs_* results on the jail and on a twin"])

p("P09", "A rotating log always reads back as a gap-free suffix of what was written",
  "After any sequence of appends of any sizes, syncs, closes and reopens, reading a rotating log from the start gives exactly the last N bytes of everything appended, in order and without gaps or repeats, where N is the reported size. Only whole oldest chunks are ever dropped, and only when the log would otherwise need more chunks than configured, so N is at least (max chunks - 1) x chunk size once that much was written.",
  ["histories"], "every sequence of append sizes (0, 1, around the chunk size, around the whole capacity, several capacities), reopen and sync up to a bounded depth, for several geometries, with every directory enumeration order",
  "test_rotate writes one log with one record size; exact-fit, wrap-around and generation-flip coincidences depend on the whole history.",
  ["src/shim_rotate.c"],
  [("append and eviction", "src/shim_rotate.c:rotate__file_write, append_new_chunk, evict_chunk"), ("chunk discovery on open", "src/shim_rotate.c:discover_chunk_sequence"), ("logical to chunk position", "src/shim_rotate.c:get_chunk_pos")],
  state=[("start_chunk/end_chunk/total_size", "extent of the logical file", "src/shim_rotate.c:RotateState")],
  observe=["evfs_file_read, evfs_file_size on the shim", "chunk files in the base VFS"])

p("P10", "Random access on a rotating log matches a byte-array model",
  "Seeking, telling, reading, overwriting, truncating, trimming and end-of-file tests on an open rotating log behave exactly as on an in-memory byte sequence that loses its oldest chunk when rotation happens, with the position shifted by what was dropped. Each call transfers or reports what the model says, errors included, and reopening the log afterwards shows the same contents and size.",
  ["histories"], "every sequence of read/write/seek/truncate/trim/reopen operations with boundary arguments up to a bounded depth from every fill level, in append and random-access mode",
  "The tests do a few seeks on one log; correctness depends on start chunk, generation and fill level in combination.",
  ["src/shim_rotate.c"],
  [("positions", "src/shim_rotate.c:get_chunk_pos, cur_write_pos"), ("truncate", "src/shim_rotate.c:rotate__file_truncate"), ("trim", "src/shim_rotate.c:trim_start_chunks")],
  state=[("file_pos", "logical position", "src/shim_rotate.c:MultipartState")],
  observe=["evfs_file_* on the shim"])

p("P11", "A rotating log survives a crash or fault at any underlying operation",
  "If the system stops, or the underlying file system starts failing, at any operation performed while an established log is being written, rotated, trimmed or truncated at its end, then reopening gives a log that opens, reads completely, and holds a contiguous run of the appended bytes, missing at the end only bytes of the interrupted operation (with a torn write, a prefix of it) and at the start only chunks rotation or trimming was allowed to drop. The reopened log accepts further appends and again reads as a gap-free suffix. When closing a chunk file fails and loses data, the operation, a later sync or the closing of the log reports it.",
  ["crash_points", "fault_sequences", "histories"], "every bounded history of appends and trims x every underlying mutation as crash point x every torn-write length class, followed by reopen, read, append and rotate",
  "No test injects a crash; the on-disk state after each single step of rotation is what the guarantee is about.",
  ["src/shim_rotate.c"],
  [("chunk file naming with generation flag", "src/shim_rotate.c:build_chunk_path, discover_chunk_sequence"), ("zero-length chunk clean-up", "src/shim_rotate.c:discover_chunk_sequence"), ("evict-before-create order", "src/shim_rotate.c:append_new_chunk")],
  observe=["reopened log contents", "chunk files in the base VFS"])

p("P12", "Rotating logs are managed like ordinary files and never exceed their space bound",
  "A log's chunk files never number more than the configured maximum nor any of them exceed the chunk size, its geometry stays the one it was created with, and invalid configurations are refused. Opening honours the open flags as for ordinary files, deleting removes every file of the log, renaming carries its contents along, its container cannot be listed as a directory, and ordinary files and directories behind the shim behave as without it.",
  ["histories", "configurations"], "every bounded sequence of create/append/reopen/delete/rename/reconfigure/list operations over logs and plain files, every combination of open flags on existing and missing logs",
  "The tests create logs in one configuration and never combine flags, deletes and renames.",
  ["src/shim_rotate.c"],
  [("open", "src/shim_rotate.c:rotate__open, open_rotate_container, init_rotate_container"), ("delete", "src/shim_rotate.c:rotate__delete, clear_container"), ("configuration check", "src/shim_rotate.c:set_rotate_config")],
  observe=["evfs_open_ex, evfs_delete_ex, evfs_rename_ex, evfs_open_dir_ex on the shim", "files in the base VFS"])

p("P13", "A tar archive is served exactly as archived",
  "Every regular file of a well-formed tar archive can be opened under its archived name, in absolute, relative or unnormalized spelling, and then has exactly the archived size and bytes under every sequence of reads and seeks, from a file on another file system and from memory alike. Names not in the archive are reported as missing, several open files do not disturb each other, and iterating an archive visits every member once in order with its header data and offset.",
  ["inputs", "histories"], "every archive of up to a few members over boundary sizes (0, 1, 511, 512, 513, 1024), name lengths (short, 100, prefix split), member types and terminators x every path spelling x every bounded read/seek sequence on two open files",
  "The tests use one archive with one fixed read pattern; block rounding, full-length name fields and interleaved handles need specific shapes.",
  ["src/tar_iter.c", "src/tar_iter_rsrc.c", "src/tar_fs.c", "src/tar_rsrc_fs.c"],
  [("header iteration", "src/tar_iter.c, src/tar_iter_rsrc.c"), ("index and lookup", "src/tar_fs.c, src/tar_rsrc_fs.c"), ("per-handle positions", "tarfs__file_read, tarrc__file_read")],
  observe=["evfs_open_ex, evfs_stat_ex, evfs_file_read on the tar VFS", "tar_iter_*"])

p("P14", "No tar image can make the reader misbehave",
  "For any sequence of bytes offered as a tar archive, truncated, corrupted or hostile, iterating and mounting it terminates, never accesses memory outside the image, and a file served from it never yields bytes that lie outside the archive or a size that is negative. A header without the format's magic, or whose checksum does not match its bytes, is not taken for a member and its contents are never served. Registration of an image that cannot be indexed fails cleanly.",
  ["inputs"], "every truncation of valid archives at every block and boundary byte, every single-field corruption of each header over a set of hostile values (sizes, checksums, types, names), for both the file and memory readers",
  "The tests only feed one well-formed archive.",
  ["src/tar_iter.c", "src/tar_iter_rsrc.c", "src/tar_fs.c", "src/tar_rsrc_fs.c"],
  [("header checksum and bounds", "src/tar_iter.c:tar_iter_next, src/tar_iter_rsrc.c:tar_rsrc_iter_next"), ("index build", "src/tar_fs.c:build_index, src/tar_rsrc_fs.c")],
  observe=["evfs_register_tar_fs, evfs_register_tar_rsrc_fs, tar iterators under AddressSanitizer"])

p("P15", "A ROM image is served exactly as built",
  "Every file of a well-formed ROM image has exactly the bytes, size, type and place in the directory tree that the image builder gave it (for names within the configured maximum length), in any path spelling and under every sequence of reads and seeks, whether the image is in memory or a file on another file system. Directory listings show each entry exactly once, hard links resolve to their target's contents, missing names are reported as missing, and open files and directories do not disturb each other.",
  ["inputs", "histories"], "every directory tree up to a bounded number of nodes (files of boundary sizes, nested directories, hard links, symlinks, special files) x every path spelling x every bounded read/seek/list sequence on two handles",
  "The tests use one prebuilt image; alignment, name padding, nesting and link cases come from the image shape.",
  ["src/romfs_common.c", "src/romfs_fs.c"],
  [("header decoding and padding", "src/romfs_common.c:romfs_read_file_header"), ("fast index", "src/romfs_common.c:romfs__build_index"), ("path lookup", "src/romfs_common.c:romfs_lookup_abs_path")],
  observe=["evfs_open_ex, evfs_stat_ex, evfs_dir_read, evfs_file_read on the romfs VFS"])

p("P16", "No ROM image can make the reader misbehave",
  "For any sequence of bytes offered as a ROM image, truncated, corrupted, cyclic or hostile, registering and using it terminates, never accesses memory outside the image, its index or its buffers, and a file served from it never yields bytes that lie outside the image. An image that lacks the format's magic, whose superblock fails its checksum, or that declares more bytes than are there is refused, and a file header that fails its own is never served or listed.",
  ["inputs"], "every truncation of valid images at every 16-byte boundary and boundary byte, every single-field corruption of every header (next offset and type, spec, size, checksum, unterminated and over-long names) over a set of hostile values, for memory and file images",
  "The tests only mount one well-formed image.",
  ["src/romfs_common.c", "src/romfs_fs.c"],
  [("image validation", "src/romfs_common.c:romfs_init"), ("header decoding", "src/romfs_common.c:romfs_read_file_header"), ("recursive index", "src/romfs_common.c:index_dir_tree")],
  observe=["evfs_register_romfs, evfs_register_rsrc_romfs and all operations under AddressSanitizer"])

p("P17", "A read-only file system is never modified",
  "While a file system is read-only, by nature (archives, ROM images) or because it was switched to read-only, no sequence of operations with any flags creates, deletes, renames, truncates or changes any file or directory, and each call that would have done so fails. Reading is unaffected by the switch, also through a jail, rotating or tracing layer, and switching it off restores writing.",
  ["histories", "inputs"], "every open-flag combination x every operation x existing and missing targets x every backend with a read-only state, each also behind every shim, in every bounded sequence with the switch toggled between operations",
  "The tests check at most one refused write; the claim is over all flag combinations and operations.",
  ["src/stdio_fs.c", "src/fatfs_fs.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/shim_jail.c", "src/shim_trace.c", "src/shim_rotate.c"],
  [("read-only switch", "EVFS_CMD_SET_READONLY in stdio_fs.c, fatfs_fs.c"), ("unsupported mutators", "tar/romfs method tables")],
  observe=["bytes and names of the underlying storage before and after"])

p("P18", "Host files opened through the library follow the documented open and data rules",
  "On the host file system backend, for every combination of open flags and whether the file exists, opening succeeds or fails, creates, truncates, preserves and positions exactly as the flag documentation says. Every subsequent sequence of reads, writes, seeks, truncates, syncs and size queries then gives the results and final contents of a plain byte-array file, and directory, rename, delete, stat and current-directory operations do what they say with the documented error for missing or existing names.",
  ["inputs", "histories"], "all 64 open-flag combinations x missing/empty/non-empty file x every bounded sequence of data operations with boundary arguments; every bounded sequence of name-space operations over a small tree",
  "test_stdio uses a few modes; flag combinations and operation order interact.",
  ["src/stdio_fs.c"],
  [("flag translation", "src/stdio_fs.c:stdio__open, translate flags"), ("data operations", "src/stdio_fs.c:stdio__file_*"), ("error translation", "src/stdio_fs.c:translate_error")],
  observe=["evfs_* on stdio and the host files themselves"])

p("P19", "Seek, tell, read, size and end-of-file agree on every read-only backend",
  "On any file opened for reading from an archive or ROM image, at every moment: the reported position equals the position set by the last seek plus the bytes successfully read since, a read returns exactly the bytes between that position and the smaller of the requested size and the file end, end-of-file is reported exactly when no byte remains, and the size never changes. Every seek origin with in-range offsets lands where documented, out-of-range seeks clamp or fail without letting a later read return bytes from outside the file.",
  ["histories", "inputs"], "every sequence of seeks (all origins, offsets around 0, the middle, the end and far beyond, both signs), reads and queries up to a bounded depth on files of several sizes, on tar and ROM backends, from file and memory",
  "Tests read files front to back; cursor rules must hold after every history.",
  ["src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/evfs.c"],
  [("offset conversion", "src/evfs.c:evfs__absolute_offset"), ("per-backend cursor", "*__file_seek, *__file_read, *__file_eof")],
  observe=["evfs_file_seek/tell/read/eof/size"])

p("P20", "Tracing and stacked shims never change behaviour",
  "Inserting a tracing layer, alone or anywhere in a stack of shims, changes no return code, no data, no handle state and no effect on the underlying file system of any operation, failing ones included; it only reports. Everything a file system offers stays reachable through the layers, each report names the operation actually performed and its result, and closing handles and unregistering release everything the layers allocated.",
  ["histories", "configurations"], "every bounded sequence of operations, with and without injected base failures, on every stack of up to three shims against an untraced twin",
  "test_trace looks at output by eye; equivalence is over all operations, arguments and stack orders.",
  ["src/shim_trace.c", "src/shim_jail.c", "src/shim_rotate.c"],
  [("delegation", "src/shim_trace.c:trace__*"), ("object co-allocation", "vfs_file_size / vfs_dir_size arithmetic")],
  observe=["evfs_* results, base VFS call log, trace report text"])

p("P21", "Copy and formatted output are complete or reported as failed",
  "Copying an open file to another file system either produces a destination whose contents equal the source from the position at which copying began to its end, or returns an error; the destination is never silently short, an existing destination is never overwritten, and a caller-supplied buffer of any size is used and respected. Formatted and string output writes exactly the formatted bytes and returns their number, or an error.",
  ["inputs", "fault_sequences", "configurations"], "every source size around the buffer size x every buffer size x every starting position x every fault (failed or short read, write, open, allocation) x same and different file systems; every bounded format/argument case",
  "The tests copy one file without faults.",
  ["src/evfs.c", "include/evfs.h"],
  [("copy loop", "src/evfs.c:evfs_copy_to_file_ex"), ("printf", "src/evfs.c:evfs__vmprintf, evfs_file_printf")],
  observe=["evfs_copy_to_file_ex, evfs_copy_to_file, evfs_file_printf, evfs_file_puts"])

p("P22", "Directory listing, searching and path creation match the directory tree",
  "Reading a directory yields each entry exactly once and then reports the end for ever until rewound; rewinding starts over; a pattern search yields exactly the entries matching the pattern, in order. Creating a path makes exactly the missing directories, succeeds whenever every existing component is a directory, fails otherwise, and neither changes its argument nor depends on trailing, doubled or mixed separators.",
  ["histories", "inputs", "configurations"], "every small directory tree x every sequence of read/find/rewind up to a bounded depth x patterns, on every backend with directories; every bounded path and sub-range for path creation over every initial tree",
  "The tests list one directory and create one path.",
  ["src/evfs.c", "src/stdio_fs.c", "src/romfs_fs.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/fatfs_fs.c", "src/shim_jail.c", "src/shim_rotate.c"],
  [("find", "src/evfs.c:evfs_dir_find"), ("make path", "src/evfs.c:evfs_make_path_range_ex"), ("backend iterators", "*__dir_read, *__dir_rewind")],
  observe=["evfs_dir_read/find/rewind, evfs_make_path*"])

p("P23", "Glob matching agrees with its definition for every pattern and name",
  "A pattern matches a name exactly when the documented meaning of literal characters, '?', '*', and bracket sets with ranges and '!' negation says so, for every pattern and every name of 8-bit characters, with '?' and '*' never matching a directory separator. Matching always terminates and never reads outside the pattern or the name, also for malformed patterns.",
  ["inputs"], "every pattern and every subject up to a bounded length over alphabets containing all special characters and separators, compared with a reference matcher",
  "test_glob checks a table of examples.",
  ["src/util/glob.c"],
  [("matcher with backtracking", "src/util/glob.c:glob_match"), ("set matcher", "src/util/glob.c")],
  observe=["glob_match, evfs_dir_find"])

p("P24", "The hash table behaves as a map under every operation sequence",
  "After any sequence of insertions, replacements, lookups, removals, and iterations, across growth and any pattern of hash collisions, the table holds exactly the last value of every key inserted and not removed, its reported count is right, iteration visits each entry exactly once, and every key and value the table owns is released exactly once. A failed allocation leaves the map unchanged and reports failure, and no operation alters the caller's own key or value buffers.",
  ["histories", "inputs", "fault_sequences"], "every sequence of operations up to a bounded depth over a small key universe with every assignment of hash values from a colliding set, through every resize threshold, with every allocation failed once",
  "test_dhash inserts one word list with one hash function.",
  ["src/util/dhash.c"],
  [("robin-hood insertion", "src/util/dhash.c:dh_insert"), ("backward-shift removal", "src/util/dhash.c:dh_remove"), ("growth", "src/util/dhash.c:grow_hash")],
  observe=["dh_insert, dh_lookup, dh_remove, dh_next, dh_num_items"])

p("P25", "Bounded string builders never write outside their range and report truncation",
  "For every source, format and destination size, the bounded string functions (the range_cat_* and range_copy_str builders, strlcpy, strlcat, strxcpy) never touch memory outside the destination. They either write the full result, terminated, and return its length, or signal that it did not fit by the documented return value, leaving an empty string (builders) or the longest prefix that fits (truncating copies). Tokenizing, trimming, comparing and taking sub-ranges give the same results as on the equivalent terminated strings, without reading past a range's end or limit.",
  ["inputs"], "every destination size x every bounded source string and range, every chain of up to a bounded number of appends, every conversion of the bounded formatter with boundary numbers and widths",
  "test_str uses a few sizes; off-by-one behaviour needs all of them.",
  ["src/util/range_strings.c", "src/util/bsd_string.c", "src/util/intmath.c"],
  [("range append family", "src/util/range_strings.c:range_cat_*"), ("tokenizer", "src/util/range_strings.c:range_token*"), ("strlcpy/strlcat", "src/util/bsd_string.c")],
  observe=["range_* functions"])

p("P26", "Mounted file systems may be shared by threads",
  "With threading enabled, threads that use their own files and directories of one mounted jail, rotating-log, tar, or ROM file system concurrently each see exactly the results they would see alone, and changing the current directory (to absolute paths), querying it, and resolving relative paths concurrently yield what some sequential order would. No memory is accessed without synchronization, no deadlock occurs, and every call returns with the file system's locks free.",
  ["schedules"], "every interleaving (up to a preemption bound) of two threads each running short programs of open/read/seek/stat/list/current-directory/append operations on a shared instance of each backend",
  "The tests are single threaded; shared path buffers and shared image handles corrupt only under particular interleavings.",
  ["src/shim_jail.c", "src/shim_rotate.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/romfs_common.c"],
  [("shared path buffer locks", "LOCK/UNLOCK in each backend"), ("seek+read on the shared image", "tarfs__file_read, romfs read paths")],
  observe=["results of each thread's calls, race and deadlock monitors"])

p("P27", "A FAT volume behaves like a file tree, across remounts",
  "On a FAT volume, every sequence of create, write, append, read, seek, truncate, rename, delete, make-directory, list, stat and change-directory operations gives the results of an in-memory file tree, for all open flags, and after unmounting and mounting the same image again every file and directory that was closed is still there with the same contents.",
  ["histories", "configurations"], "every bounded sequence of operations over a small tree with sizes around sector and cluster boundaries, followed by remount and full comparison, one and two volumes",
  "test_fatfs performs one fixed scenario.",
  ["src/fatfs_fs.c", "src/fatfs_image.c"],
  [("flag translation", "src/fatfs_fs.c:fatfs__open"), ("truncate", "src/fatfs_fs.c:fatfs__file_truncate"), ("image mount", "src/fatfs_image.c")],
  observe=["evfs_* on the FatFs VFS before and after remount"])

p("P28", "FAT image I/O faults are reported, confined and leave nothing open",
  "If any read, write, seek or sync of the image file fails while a FAT volume is being made, mounted, used or unmounted, the call that needed it reports an error, no memory or image handle is leaked, sectors never reach the image at a wrong offset or of another volume, and the volume can be mounted again afterwards. A volume shows exactly the image mounted on it last; mounting over it or unmounting leaves no image open, and files of an image no longer mounted reach nothing.",
  ["fault_sequences", "configurations"], "every bounded history x every image operation index as the failing one, with one and two mounted images",
  "No test makes the image file fail or mounts a second image.",
  ["src/fatfs_image.c", "src/fatfs_fs.c"],
  [("disk glue", "src/fatfs_image.c:disk_read, disk_write, disk_ioctl"), ("mount/unmount", "src/fatfs_image.c:fatfs_mount_image, fatfs_unmount_image")],
  observe=["return codes, image bytes, open underlying handles"])

p("P29", "Numeric utilities give the value they document",
  "For every value, scale and number of places the fixed-point text builders print, with the right sign and at most the requested places, a number within one unit of the last place of the true value, and the numeric conversions to base 10 agree with that text. Rounding to an integer rounds halves away from zero without overflowing; SI scaling picks a prefix whose scaled value is the original to half a unit. The integer logarithms, digit counts, powers of two, square roots (below 2^62, to one unit) and base-2 logarithms (to 2^-12) are correct for every positive argument; the exact, nearest, nearest-above and nearest-below searches return such an element of any ascending array (the first two, and generated search functions, also of descending ones and of keys further apart than an int holds); unaligned reads and writes of every width and byte order transfer exactly the bytes of the value and touch no neighbour; and points on lines and quadratic curves are right to four units over the whole range, with a parameter search that always ends and finds a point within twelve units of any position on an ascending curve.",
  ["inputs"], "every scale from a set reaching 2^32-1 x every small numerator and every neighbour of a multiple, tenth or half unit x every number of places; every small integer and the neighbourhood of every power; every ascending array up to a bounded length; every alignment, width and byte order; every line and curve through extreme and ordinary points",
  "No test calls them; sign, carry and overflow cases are rare inputs.",
  ["src/util/intmath.c", "src/util/range_strings.c", "src/util/search.c", "include/evfs/util/unaligned_access.h"],
  [("fixed-point text", "src/util/range_strings.c:range_cat_fixed_padded, range_cat_ufixed_padded"), ("conversions", "src/util/intmath.c:to_fixed_base10_parts, fixed_base10_adjust, to_fixed_si, quadratic_eval, bezier_search_t"), ("search", "src/util/search.c:search_nearest"), ("byte order", "include/evfs/util/unaligned_access.h")],
  observe=["printed text and returned numbers"])

p("P30", "Command lines are parsed as documented",
  "For every argument vector and option definition, getopt_r and getopt_long_r report exactly the options and arguments the documentation describes (clustered short options, attached, separate and optional arguments, exact long names with or without '=', flags, missing and unknown options as errors), never read beyond the terminating NULL even when parsing goes on after an error, and finish with the index of the first operand. When permuting, the arguments end up as the consumed options in order followed by all operands in order, none lost or repeated.",
  ["inputs"], "every command line up to a bounded number of words over an alphabet of option, argument, operand and malformed words x several option strings x with and without long options x permuting or not",
  "The tests' programs only parse a few fixed lines.",
  ["src/util/getopt_r.c"],
  [("option scanner", "src/util/getopt_r.c:getopt_long_r"), ("operand permutation", "src/util/getopt_r.c:permute_args")],
  observe=["return values, GetoptState, the argument vector"])

p("P31", "Metadata fields are announced, filled in and zero otherwise",
  "For every file system and every stack of shims, the field bits returned by EVFS_CMD_GET_STAT_FIELDS and EVFS_CMD_GET_DIR_FIELDS are exactly the fields filled in by stat and by reading a directory: an announced name, size, type or modification time is the right one for every file and directory, and a field that is not announced is zero. On FAT volumes an entry's time is that of its last change to the two seconds the format keeps, for every date from 1980 to 2107, in every time zone and season, and reading or renaming the entry keeps it.",
  ["inputs", "configurations"], "every file system x every bounded stack of shims x every node of a tree x spellings; every day of 1980 to 2107 x times of day x time zones with and without daylight saving time",
  "The tests look at sizes and types of a few entries on one file system, in one time zone and on one day.",
  ["src/stdio_fs.c", "src/fatfs_fs.c", "src/fatfs_image.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/shim_jail.c", "src/shim_trace.c", "src/shim_rotate.c"],
  [("announced fields", "src/stdio_fs.c:stdio__vfs_ctrl and its counterparts"), ("FAT time conversion", "src/fatfs_fs.c:fatfs__dir_read; src/fatfs_image.c:get_fattime"), ("entry types", "src/stdio_fs.c:stdio__dir_read")],
  observe=["EvfsInfo of evfs_stat and evfs_dir_read", "EVFS_CMD_GET_STAT_FIELDS, EVFS_CMD_GET_DIR_FIELDS"])

p("P32", "Missing arguments and incomplete back ends are refused without effect",
  "A public call given a null pointer for an argument it needs (path, handle, buffer, result, name, or the object to register) returns a failure: a negative status, or the neutral answer of a predicate (false; true for evfs_file_eof()). It never crashes, leaks, returns a handle, or changes a file, an open handle, the current directory or the registry. A back end may leave out any of the optional methods (delete, rename, make_dir, open_dir, get_cur_dir, set_cur_dir, vfs_ctrl, path_root_component): it can be registered, wrapped in shims and unregistered; an operation that needs a missing method returns EVFS_ERR_NO_SUPPORT and changes nothing, every other operation does exactly what it does with all methods present. Not covered: null Evfs objects given to evfs_vfs_open() and evfs_vfs_open_dir(), null strings given to evfs_file_puts() and evfs_file_printf().",
  ["inputs", "configurations"], "every public call x every nonempty set of null arguments x shim stacks; every subset of the 8 optional methods x operations x shim stacks",
  "No test passes a null argument or registers a back end without its optional methods.",
  ["src/evfs.c", "src/evfs_path.c", "src/shim_jail.c", "src/shim_trace.c", "src/shim_rotate.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c"],
  [("argument checks", "src/evfs.c:PTR_CHECK; src/evfs_internal.h:ASSERT"), ("default methods", "src/evfs.c:evfs_register, default__delete and its siblings")],
  observe=["call results", "the base file system", "registry", "open handles and allocations"])

p("P33", "Command usage lists every option, operand and help text",
  "For every application name, set of short and long options, operands, help definitions and line width, print_command_usage() prints, in order and each exactly once, every option and operand in the summary (in brackets unless its help marks it as required, with a sign of its argument) and again in the detailed list with its argument name and help. A long option shows a short form only if its value is a printable character, and a short option that belongs to a shown long option is not repeated. No line is wider than asked for unless it holds a single item that cannot be broken; help texts beside options begin in one column. When memory runs out only the summary may be missing. Nothing is leaked and no memory outside the given strings is read.",
  ["inputs"], "every bounded ordered choice of long options x short option strings x operands x kinds of help x application names x line widths, each with the allocation failing too",
  "No test or example in the repository calls it.",
  ["src/util/getopt_r.c"],
  [("summary and list", "src/util/getopt_r.c:print_command_usage"), ("line breaking", "src/util/getopt_r.c:append_option, print_help_detail")],
  observe=["text written to stdout"])

p("P34", "A littlefs volume behaves like a file tree, across remounts and image faults",
  "The littlefs back end and its image I/O, on top of a littlefs that keeps its documented interface, follow the same rules as the other writable back ends: the open-flag rules, read/write/append/seek/tell/size/eof/truncate as on a byte array, name-space operations and the current directory as on a tree, all of it unchanged after unmounting and mounting the image again. The preconditions of littlefs are never violated. A call in which an operation of the image file or an allocation fails reports a failure, damages no other file and leaves nothing allocated or open. A read-only volume is never modified. An image has exactly the configured size, and block b at offset o is at byte b*block_size+o of it or refused when that does not fit an offset.",
  ["inputs", "histories", "faults", "configurations"], "open flags x targets x uses; operation sequences on one file and on the name space; the n-th operation of the image failing at each point of a history; allocations failing; block addresses x offset widths",
  "The back end is not built here: no test covers it.",
  ["src/littlefs_fs.c", "src/littlefs_image.c"],
  [("flag and error translation", "src/littlefs_fs.c:littlefs__open, translate_error"), ("current directory and relative paths", "src/littlefs_fs.c:make_absolute_path, littlefs__set_cur_dir"), ("image I/O", "src/littlefs_image.c:littlefs_image_read, littlefs_image_prog, littlefs_make_image, littlefs_mount_image")],
  observe=["call results", "the tree read back after mounting again", "image bytes", "open handles and allocations"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")

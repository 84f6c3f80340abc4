"""Registry: which jobs decide which property."""
CHECKS = {}


def check(pid, title, jobs, rule, **kw):
    CHECKS[pid] = dict(title=title, jobs=jobs, rule=rule, **kw)


def job(name, harness, variant, quick, thorough, **kw):
    return dict(name=name, harness=harness, variant=variant, quick=quick,
                thorough=thorough, **kw)


check("C11", "Ordered index stays correct and balanced", [
    job("tree", "h_tree.c", "asan", 16000, 40000),
    job("tree-asserts", "h_tree.c", "dbg", 4000, 8000),
], "Each case is a seeded history of insertions and removals over 1-6000 keys "
   "in seven key distributions; a state is non-trivial and distinct by the "
   "shape (depths and colours) of the index after an operation.",
    floors={"inserts": 20000, "removes": 10000, "oracle_checks": 100000})

check("C13", "IP address text is parsed exactly and safely", [
    job("ip", "h_ip.c", "asan", 19200, 60000),
    job("ip-uninit", "h_ip.c", "msan", 6400, 12000),
    job("ip-plain", "h_ip.c", "plain", 48000, 120000, opts={"long": 1}),
    job("ip-class", "h_ipcpp.cpp", "asan", 3200, 6000),
], "Each case parses seeded well-formed IPv4 and IPv6 texts (judged by "
   "inet_pton), lists of them and hostile texts, from and into exactly sized "
   "blocks; distinct well-formed texts are the non-trivial ones.",
    floors={"lists": 5000, "lists_over_250": 20, "lists_over_65000": 10, "hostile_texts": 10000, "copies": 3000})


check("C01", "A shared resource is never freed while held, nor freed twice", [
    job("users", "h_resource.c", "sched", 160000, 2400000, timeout=60, opts={"handlemem": 1}),
    job("users-reuse", "h_resource.c", "sched", 160000, 2400000, timeout=60, opts={"reuse": 1}),
    job("users-asserts", "h_resource.c", "schedasan", 16000, 100000, timeout=60, cflags=["-DDEBUG", "-D_DEBUG"]),
    job("single", "h_resource.c", "schedasan", 8000, 40000, timeout=60, opts={"single": 1}, cflags=["-DDEBUG", "-D_DEBUG"]),
], "Each case is 1-4 users, 0-2 replacers and a free of the manager, interleaved by "
   "a seeded controlled schedule; distinct by the sequence of thread switches.",
    technique="controlled-schedule stress with lifetime oracle, AddressSanitizer",
    floors={"gets": 100000, "releases_of_retired": 2000, "resources_freed": 50000,
            "handle_memory_reused": 5000, "held_many_times": 10})
check("C02", "Replacing a resource loses nothing and leaks nothing", [
    job("replacers", "h_resource.c", "sched", 240000, 2400000, timeout=60, opts={"replacers": 1}),
    job("replacers-reuse", "h_resource.c", "sched", 240000, 2400000, timeout=60, opts={"reuse": 1, "replacers": 1}),
    job("single", "h_resource.c", "schedasan", 12000, 40000, timeout=60, opts={"single": 1}, cflags=["-DDEBUG", "-D_DEBUG"]),
], "Each case is 2-3 concurrent replacers with 0-2 users, interleaved by a seeded "
   "controlled schedule; distinct by the sequence of thread switches.",
    technique="controlled-schedule stress with conservation oracle",
    floors={"replacements": 50000, "quiescent_checks": 50000, "resources_freed": 50000, "held_many_times": 10})
check("C03", "The cache returns the data of the key, unchanged while held", [
    job("sched", "h_cache.c", "sched", 80000, 800000, timeout=60, opts={"threads": 1}),
    job("sched-asan", "h_cache.c", "schedasan", 10000, 80000, timeout=60, opts={"threads": 1}, cflags=["-DDEBUG", "-D_DEBUG"]),
    job("races", "h_cache.c", "tsan", 800, 8000, opts={"threads": 1, "tsan": 1}),
], "Each case is 2-4 threads looking up, holding and releasing entries of one cache; "
   "distinct by the sequence of thread switches of the controlled schedule.",
    technique="controlled-schedule stress with content oracle, ThreadSanitizer",
    floors={"lookups": 100000, "concurrent_hits": 30000})
check("C04", "The cache keeps the most recently used entries within its capacity", [
    job("history", "h_cache.c", "asan", 48000, 400000),
    job("history-asserts", "h_cache.c", "dbg", 12000, 60000),
], "Each case is a seeded history of lookups, nested holds, releases and failing "
   "loads; distinct by which entries are resident and held after an operation.",
    floors={"hits": 30000, "evictions": 30000, "failed_loads": 5000, "lookups_all_slots_held": 1000,
            "large_caches": 20, "held_many_times": 20, "many_shards": 20})
check("C05", "A pooled item belongs to at most one user at a time", [
    job("threads", "h_pool.c", "sched", 240000, 3000000, timeout=60, io=True),
    job("threads-asan", "h_pool.c", "schedasan", 16000, 100000, timeout=60, io=True, cflags=["-DDEBUG", "-D_DEBUG"]),
    job("history", "h_pool.c", "asan", 32000, 160000, io=True),
], "Each threads case is 2-4 threads taking and releasing 1-4 items under a seeded controlled "
   "schedule, distinct by the sequence of thread switches; history cases are sequential "
   "histories with failing creations and pools of real file handles with failing opens.",
    technique="controlled-schedule stress with ownership oracle, fault injection, AddressSanitizer",
    floors={"taken": 100000, "exhaustions": 20000, "creation_failures": 200, "file_pools": 200,
            "failing_file_pools": 200, "handle_reads": 1000, "files_over_2g": 40, "round_sizes": 100, "large_file_pools": 10})

check("C06", "Every way of storing a collection gives the same items", [
    job("equiv", "h_coll.c", "asan", 32000, 200000, io=True, opts={"mode": "equiv"}),
    job("equiv-asserts", "h_coll.c", "dbg", 2000, 40000, io=True, opts={"mode": "equiv"}),
    job("equiv-uninit", "h_coll.c", "msan", 1200, 20000, io=True, opts={"mode": "equiv"}),
], "Each case is a seeded file of 1-3 collections opened in 1-3 storages, its items read, held and "
   "released in seeded order; distinct by storage, kind, size, item and configuration.",
    floors={"released_by_list": 20000, "items": 50000, "items_over_64k": 200, "huge_collections": 100, "items_in_huge": 4000, "far_in_file": 40, "items_over_65535": 15, "items_over_255": 20, "out_of_range": 5000, "memory": 500, "file": 500, "cache": 500,
            "partial": 500, "partial+cache": 500, "all loaded": 500})
check("C07", "Collections can be read by many threads at once", [
    job("sched", "h_coll.c", "sched", 30000, 500000, io=True, timeout=60, opts={"mode": "threads"}),
    job("sched-asan", "h_coll.c", "schedasan", 4500, 60000, io=True, timeout=60, opts={"mode": "threads"}, cflags=["-DDEBUG", "-D_DEBUG"]),
    job("races", "h_coll.c", "tsan", 900, 12000, io=True, opts={"mode": "threads", "tsan": 1}),
], "Each case is 2-4 threads reading and holding items of 1-3 shared collections; distinct by the "
   "sequence of thread switches of the controlled schedule (or by the seed with real threads).",
    technique="controlled-schedule stress with content oracle, ThreadSanitizer",
    floors={"concurrent_reads": 50000})
check("C08", "Damaged data and failing reads give an error, never corruption", [
    job("damage", "h_coll.c", "asan", 160000, 600000, io=True, opts={"mode": "damage"}),
    job("damage-uninit", "h_coll.c", "msan", 8000, 60000, io=True, opts={"mode": "damage"}),
], "Each case is a file with one damage (cut short, a wrong count, length or item length) or one "
   "failing call (open, read, seek, tell, allocation) while opening or reading; distinct by kind of "
   "damage, storage, place and outcome.",
    technique="fault injection and damaged inputs with content oracle, sanitizers",
    floors={"reads_given": 20000, "reads_refused": 5000, "read_faults": 1000, "open_refused": 300})
check("C09", "Binary search of a sorted collection finds exactly what is there", [
    job("search", "h_coll.c", "asan", 96000, 150000, io=True, opts={"mode": "search"}),
], "Each case searches 1-3 sorted collections 30 times over seeded ranges and keys; distinct by range, "
   "result, storage and failure.",
    floors={"found": 10000, "absent": 10000, "search_faults": 1000, "far_in_file": 20, "items_over_65535": 10, "items_over_255": 10})
check("C26", "Reloading a data set is atomic for its users", [
    job("history", "h_dataset.c", "asan", 24000, 120000, io=True),
    job("threads", "h_dataset.c", "sched", 48000, 500000, io=True, timeout=60, opts={"threads": 1}),
    job("threads-asan", "h_dataset.c", "schedasan", 8000, 60000, io=True, timeout=60, opts={"threads": 1}, cflags=["-DDEBUG", "-D_DEBUG"]),
], "Each history case is a small engine reloaded 2-12 times from good, damaged, cut and missing files and "
   "memory, with failing file calls and allocations, while up to 4 versions are held; each threads case is "
   "1-3 users and 1-2 reloaders under a seeded controlled schedule. Distinct by the history of outcomes, or "
   "the sequence of thread switches.",
    technique="fault injection and controlled-schedule stress with version oracle, AddressSanitizer",
    floors={"reloaded": 2000, "refused": 2000, "reload_faults": 500, "concurrent_uses": 10000, "concurrent_reloads": 5000})
check("C14", "Header names resolve to one stable unique id each", [
    job("lists", "h_headers.c", "asan", 160000, 1600000),
    job("lists-uninit", "h_headers.c", "msan", 6000, 60000),
    job("lists-asserts", "h_headers.c", "dbg", 6000, 60000),
], "Each case builds the header list of 0-23 seeded plain, combined, repeated, empty and separator-only "
   "names and looks up every name of it and its variants; distinct by the names.",
    floors={"lists_verified": 10000, "found": 100000, "absent": 100000, "combined_headers": 10000, "many_names": 10, "long_names": 10, "many_parts": 10})
check("C18", "Required properties map to exactly the available ones asked for", [
    job("lists", "h_props.c", "asan", 80000, 1600000),
    job("lists-uninit", "h_props.c", "msan", 6000, 60000),
    job("lists-asserts", "h_props.c", "dbg", 8000, 60000),
], "Each case is 1-4 data sets of 1-39 seeded names (each keeping part of the last), required as an array, a "
   "string, an existing list or all; distinct by the names and those asked for.",
    floors={"lists_verified": 20000, "found": 200000, "absent": 200000, "failed_reads": 1000, "with_set_header": 1000, "many_names": 10, "long_names": 10})
check("C19", "Temporary files are copies of the master and never hurt other files", [
    job("temps", "h_file.c", "asan", 32000, 300000, io=True, opts={"temp": 1}, timeout=60),
], "Each case is a master file among 0-6 other files (copies, near copies, like-named files, directories) and "
   "2-6 steps of making, finding and deleting copies in 0-4 directories, some missing or unusable, with failing "
   "file calls and copies in use by this or another process; distinct by the history of outcomes.",
    technique="fault injection with directory-content oracle, AddressSanitizer",
    floors={"temp_files_made": 2000, "temp_files_refused": 1000, "temp_faults": 1000, "copies_found": 500, "copies_absent": 500, "copies_deleted": 300, "used_copies_kept": 50, "copies_over_127": 5, "many_directories": 2, "names_made": 500, "names_refused": 200})
check("C20", "File helpers report success only when the whole file was handled", [
    job("files", "h_file.c", "asan", 80000, 600000, io=True, timeout=60),
], "Each case is 4 operations (copy, write, load, size, delete, directory, path) on a file of 0-65537 bytes, "
   "half of them with failing file calls or allocations; distinct by size, operation and failure.",
    technique="fault injection with content oracle, AddressSanitizer",
    floors={"sizes_over_2g": 100, "file_faults": 5000, "failures_reported": 4000, "copy": 5000, "write": 3000, "load": 3000})
check("C21", "A text file is handed over line by line, complete and in order", [
    job("lines", "h_text.c", "asan", 600000, 6000000, io=True, timeout=90),
], "Each case is a file of 0-60 lines of 0-480 characters with LF and CRLF ends read through a buffer of 1-120 bytes, with "
   "lines at and around the buffer size, empty lines, an unended last line, a limit or a failing read; distinct by line lengths and buffer size.",
    technique="callback-sequence oracle, AddressSanitizer on exactly sized buffers",
    floors={"lines_seen": 100000, "longer_files": 50, "long_files": 5, "buffers_over_251": 30, "buffers_over_32764": 30, "refilled_files": 10000, "files_with_too_long_lines": 5000, "empty_lines": 5000, "text_faults": 500})
check("C22", "YAML documents yield exactly their key-value pairs", [
    job("documents", "h_text.c", "asan", 600000, 6000000, io=True, timeout=90, opts={"yaml": 1}),
], "Each case is a YAML file of 0-12 documents of 0-14 pairs, quoted and not, or arbitrary text, read through a buffer of 1-300 bytes into "
   "pairs of exactly sized storage around the sizes needed, with a limit or a failing read; distinct by file, buffer and pair count.",
    technique="callback-sequence oracle, AddressSanitizer on exactly sized storage",
    floors={"documents_seen": 50000, "pairs_seen": 100000, "values_cut": 5000, "values_quoted": 50000, "arbitrary_files": 5000, "many_documents": 10, "many_pairs": 10, "long_pairs": 10, "many_line_ends": 10, "long_marks": 10, "very_many": 3, "refilled_files": 10000, "text_faults": 500})
check("C15", "Pseudo-header evidence is composed from its parts", [
    job("composed", "h_evid.c", "asan", 1500000, 10000000, timeout=90, opts={"mode": 1}, wraps=["snprintf"]),
], "Each case is a list of 1-10 headers, most combined from 2-4 of 7 names, and up to 3 rounds of 0-15 pieces of evidence in any case and prefix, "
   "with values missing, empty and longer than the buffers of 1-120 bytes; distinct by headers and evidence names.",
    technique="model-based oracle on composed evidence, AddressSanitizer on exactly sized buffers",
    floors={"composed": 50000, "cut": 5000, "not_composed": 50000, "supplied": 5000, "from_later_prefix": 10000, "removed": 50000, "no_space": 100, "many_headers": 20, "long_names": 20, "long_values": 20, "many_pairs": 20, "header_of_many_parts": 20, "exact_totals": 5000})
check("C16", "Evidence comes back exactly as it was added", [
    job("evidence", "h_evid.c", "asan", 1600000, 16000000, timeout=90, opts={"mode": 0}),
], "Each case is evidence for 0-40 pairs, with and without a second array, added to beyond its capacity and iterated with random prefixes and stops, "
   "and one key for the prefix map; distinct by the pairs added.",
    technique="model-based oracle over operation histories, AddressSanitizer",
    floors={"pairs_seen": 200000, "adds_refused": 20000, "stopped": 20000, "prefixes_found": 20000, "pairs_over_60000": 5, "pairs_over_255": 100})
check("C17", "Property overrides in evidence take effect for that property only", [
    job("overrides", "h_evid.c", "asan", 600000, 6000000, timeout=90, opts={"mode": 2}),
    job("memory", "h_evid.c", "asan", 200000, 2000000, timeout=90, opts={"mode": 2, "oom": 1}),
], "Each case is 1-10 properties, some of which can be overridden, with space for all or fewer values, and up to 4 rounds of 0-19 pieces of evidence of known, "
   "unknown, prefixed and repeated keys with values of 0-70000 characters, and profile id lists around the limits of an id; distinct by properties and keys.",
    technique="model-based oracle over operation histories, allocation-failure injection, AddressSanitizer",
    floors={"values_found": 50000, "overrides_given": 100000, "profile_ids": 50000, "resets": 20000, "no_space": 1000, "allocation_failures": 5000, "many_properties": 20, "many_profile_ids": 50})
check("C10", "Data set lookups agree with a plain reading of the data", [
    job("lookups", "h_lookup.c", "asan", 80000, 800000, io=True),
    job("lookups-faults", "h_lookup.c", "asan", 40000, 400000, io=True, opts={"faults": 1}),
    job("lookups-memory", "h_lookup.c", "asan", 16000, 150000, io=True, opts={"faults": 1, "oom": 1}),
    job("lookups-asserts", "h_lookup.c", "dbg", 12000, 80000, io=True),
], "Each case is a seeded data set of 1-5 components, 0-12 properties of text, coordinate and IP values, 0-40 "
   "profiles, opened in one storage or a mixture, and 40 look ups or iterations; distinct by the data and storage.",
    technique="differential oracle (plain scan), held-item monitor, fault injection, AddressSanitizer",
    floors={"found": 50000, "absent": 20000, "iterations": 20000, "stopped": 1000, "far_in_file": 100, "faults_reported": 3000, "component_lists": 5000, "strings": 10000, "very_many_values": 8, "very_many_profiles": 8, "very_many_properties": 8})
check("C12", "Memory helpers never exceed the block they were given", [
    job("helpers", "h_mem.c", "asan", 120000, 1500000),
    job("helpers-plain", "h_mem.c", "plain", 60000, 800000),
    job("helpers-asserts", "h_mem.c", "dbg", 20000, 100000),
    job("helpers-uninit", "h_mem.c", "msan", 12000, 60000),
    job("large", "h_mem.c", "plain", 400, 8000, opts={"big": 1}),
    job("threads", "h_mem.c", "asan", 6000, 60000, opts={"threads": 1}),
    job("threads-races", "h_mem.c", "tsan", 600, 6000, opts={"threads": 1, "tsan": 1}),
], "Each case is a reader, a data buffer, a list or a tracking allocator with a seeded history of operations, "
   "or 2-6 threads allocating and freeing; distinct by the history.",
    technique="model oracle, AddressSanitizer, ThreadSanitizer",
    floors={"large_readers": 1000, "large_buffers": 1000, "lists_over_250": 50, "lists_over_65000": 2, "advanced": 20000, "refused": 5000, "buffers": 20000, "buffers_refused": 5000, "lists": 5000, "trackers": 5000, "failed_allocations": 1000, "resets": 1000, "untracked": 1000, "concurrent_rounds": 1000})
check("C23", "Floats keep their value through the portable byte form", [
    job("runs", "h_float.c", "plain", 3000, 1000),
    job("all", "h_float.c", "plain", 65536, 65536, opts={"chunks": 65536}, timeout=60),
    job("runs-asan", "h_float.c", "asan", 300, 4000, opts={"run": 4096}),
    job("runs-portable", "h_float.c", "noieee", 300, 4000, opts={"run": 4096}),
    job("runs-uninit", "h_float.c", "msan", 100, 1000, opts={"run": 2048}),
], "Each case is a run of consecutive single precision bit patterns, at random places and about the powers of two, the subnormals, zero and the infinities "
   "(job 'all' goes through all 2^32), converted to the byte form and back; distinct by the start of the run.",
    technique="bit level oracle over runs of all floats, UndefinedBehaviorSanitizer",
    floors={"normal floats": 10000000, "subnormal floats": 1000000, "zeros": 100, "infinities": 100, "NaNs": 100000, "coordinates": 5000, "not_coordinates": 1000})
check("C24", "String helpers agree with their definitions and respect bounds", [
    job("strings", "h_string.c", "asan", 180000, 1200000),
    job("strings-plain", "h_string.c", "plain", 180000, 1200000),
    job("strings-uninit", "h_string.c", "msan", 30000, 100000),
], "Each case compares and searches seeded strings, mostly variations of each other by case, one character or length, held in blocks with nothing readable after them; distinct by the pair of strings.",
    technique="character by character oracle, AddressSanitizer, MemorySanitizer",
    floors={"same": 50000, "different": 50000, "length_same": 50000, "contained": 50000, "not_contained": 50000, "contained_later": 10000, "string_values": 10000, "bools": 10000, "strings_over_65536": 20, "long_strings": 100})
check("C25", "Every status has one clear message, delivered to the caller", [
    job("messages", "h_status.cpp", "asan", 20000, 100000),
    job("messages-uninit", "h_status.cpp", "plain", 20000, 100000),
    job("messages-disabled", "h_status.cpp", "noexc", 2000, 20000),
], "Each case asks for all messages of the table and for seeded codes, inside and outside the enumeration, with seeded file, source and function names, "
   "raises them as C and C++ exceptions, in a forked process as exits, and with failing allocations; distinct by code and name.",
    technique="text oracle against the table and the code, allocation balance, AddressSanitizer",
    floors={"table_messages": 100000, "messages_unknown": 5000, "messages_naming_file": 5000, "texts_with_source": 5000, "texts_without_source": 3000, "fatal_thrown": 5000,
            "code_exceptions": 5000, "exits": 300, "failed_allocations": 3000, "disabled": 1000})
check("C28", "C++ metadata entities hold and compare what the data says", [
    job("entities", "h_cppconf.cpp", "asan", 60000, 120000, opts={"meta": 1}),
    job("entities-plain", "h_cppconf.cpp", "plain", 120000, 240000, opts={"meta": 1}),
], "Each case builds, copies and compares seeded components, profiles, properties, values, value keys and dates, and reads strings of a collection that may fail; distinct by the attributes.",
    technique="model oracle, held-item monitor, AddressSanitizer",
    floors={"entities": 30000, "dates": 10000, "key_orders": 5000, "strings_read": 20000, "strings_refused": 5000})
check("C29", "C++ configuration and evidence objects keep what they were given", [
    job("histories", "h_cppconf.cpp", "asan", 120000, 120000),
    job("histories-plain", "h_cppconf.cpp", "plain", 240000, 240000),
], "Each case is a seeded history of making, reading, changing, copying and destroying required properties, settings and evidence, in part with failing allocations; distinct by the history.",
    technique="model oracle, allocation balance, AddressSanitizer",
    floors={"names_read": 30000, "contained": 10000, "not_contained": 10000, "required_copies": 10000, "directories_set": 20000, "pairs": 100000, "erased": 10000, "values_replaced": 10000, "cleared": 3000, "evidence_copies": 10000, "failed_allocations": 10000})
check("C27", "C++ results give each property's values or say why there are none", [
    job("results", "h_engine.cpp", "asan", 96000, 480000),
    job("results-plain", "h_engine.cpp", "plain", 160000, 800000),
], "Each case is an engine whose data is replaced while results of earlier and current data are read by index and by name as each type, in part outliving the engine; distinct by the history.",
    technique="model oracle, conservation of data sets, AddressSanitizer",
    floors={"values": 100000, "invalid": 30000, "too_many": 10000, "none": 30000, "trues": 3000, "falses": 3000, "integers": 3000, "doubles": 3000, "listings": 10000, "engines_gone_first": 500})
check("C32", "Engine evidence keys and update address are exactly as configured", [
    job("engines", "h_engine.cpp", "asan", 128000, 480000, opts={"keys": 1}),
    job("engines-plain", "h_engine.cpp", "plain", 320000, 800000, opts={"keys": 1}),
], "Each case is an engine that is given headers, overridable properties, licence keys, addresses and metadata in a seeded order; distinct by the key counts along the history.",
    technique="model oracle, held-item monitor, AddressSanitizer",
    floors={"key_lists": 10000, "keys": 50000, "keys_repeated": 5000, "pseudo_headers": 5000, "overridable": 20000, "nameless": 300, "addresses_set": 2000, "addresses_composed": 2000, "addresses_none": 1000, "strings_appended": 10000, "strings_refused": 3000})
_NT = ["-DDEBUG", "-D_DEBUG", "-DFIFTYONE_DEGREES_NO_THREADING"]
check("C30", "Single threaded and memory-only builds behave like the full build", [
    job("resource-nothread", "h_resource.c", "schedasan", 12000, 160000, timeout=60, opts={"single": 1}, cflags=_NT),
    job("cache-nothread", "h_cache.c", "nothread", 12000, 400000),
    job("pool-nothread", "h_pool.c", "nothread", 12000, 320000, io=True),
    job("coll-nothread", "h_coll.c", "nothread", 18000, 200000, io=True, opts={"mode": "equiv"}),
    job("damage-nothread", "h_coll.c", "nothread", 18000, 200000, io=True, opts={"mode": "damage"}),
    job("dataset-nothread", "h_dataset.c", "nothread", 9000, 120000, io=True),
    job("memory-nothread", "h_mem.c", "nothread", 9000, 120000),
    job("coll-memory", "h_coll.c", "memonly", 18000, 200000, io=True, opts={"mode": "equiv"}),
    job("damage-memory", "h_coll.c", "memonly", 18000, 200000, io=True, opts={"mode": "damage"}),
    job("search-memory", "h_coll.c", "memonly", 9000, 120000, io=True, opts={"mode": "search"}),
    job("dataset-memory", "h_dataset.c", "memonly", 9000, 120000, io=True),
    job("lookup-memory", "h_lookup.c", "memonly", 9000, 120000, io=True),
    job("lookup-nothread", "h_lookup.c", "nothread", 9000, 120000, io=True),
    job("props-memory", "h_props.c", "memonly", 6000, 80000),
    job("props-nothread", "h_props.c", "nothread", 6000, 80000),
    job("headers-memory", "h_headers.c", "memonly", 6000, 80000),
    job("engine-memory", "h_engine.cpp", "memonly", 9000, 120000),
    job("engine-nothread", "h_engine.cpp", "nothread", 9000, 120000),
], "Each case is a case of the check of the part (resource, pool, cache, collection, data set, lookups) in a build without threading or without files; distinct as there.",
    technique="the same model oracles in the reduced builds, AddressSanitizer",
    floors={"build_flags": 10000, "items_read": 100000, "found": 30000, "reads_refused": 3000, "truncated": 400, "i/o failure while opening": 200, "no memory while opening": 200, "hits": 30000, "evictions": 10000, "exhaustions": 300, "replacements": 5000, "resources_freed": 5000, "reloaded": 2000, "temp_files_made": 1000, "tracked": 5000})
check("C31", "Running out of memory is reported and leaves nothing behind", [
    job("each", "h_oom.c", "asan", 28000, 560000, io=True, wraps=["malloc", "aligned_alloc"]),
    job("each-asserts", "h_oom.c", "dbg", 5600, 56000, io=True, wraps=["malloc", "aligned_alloc"]),
    job("each-uninit", "h_oom.c", "msan", 2800, 28000, io=True, wraps=["malloc", "aligned_alloc"]),
    job("headers", "h_headers.c", "asan", 1000, 10000, opts={"oom": 1}),
    job("properties", "h_props.c", "asan", 1000, 10000, opts={"oom": 1}),
    job("overrides", "h_evid.c", "asan", 40000, 400000, timeout=90, opts={"mode": 2, "oom": 1}),
    job("lookups", "h_lookup.c", "asan", 16000, 150000, io=True, opts={"faults": 1, "oom": 1}),
    job("collections", "h_coll.c", "asan", 16000, 160000, io=True, opts={"mode": "damage", "oom": 1}),
    job("reloads", "h_dataset.c", "asan", 8000, 80000, io=True, opts={"oom": 1}),
    job("configurations", "h_cppconf.cpp", "asan", 6000, 60000),
    job("messages", "h_status.cpp", "asan", 4000, 40000),
    job("objects", "h_engine.cpp", "asan", 24000, 240000, cflags=["-DNEW_FAILS"]),
], "Each case is one operation with its parameters, repeated with each of its allocations failing in turn, alone and with all later ones; distinct by operation, parameters and failing allocation.",
    technique="enumeration of failing allocations, allocation and file balance, AddressSanitizer",
    floors={"failed_allocations": 100000, "failed_pool": 3000, "failed_cache": 10000, "failed_collections": 50000, "failed_resource": 8000, "failed_file": 600, "failed_filepool": 600, "failed_list": 600, "failed_evidence": 600, "failed_addresses": 2500, "failed_signal": 600, "failed_message": 600, "failed_tracker": 15000, "allocation_failures": 10000, "faults_reported": 10000, "no memory while opening": 600, "read_faults": 2000, "reload_faults": 3000, "no_space": 5000, "refused_new": 80000, "refused_malloc": 15000, "ended_no_memory": 80000, "cases_engine": 500, "cases_strings": 500})
_INI = ["pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy"]
check("C33", "Signals, locks and atomic operations lose nothing", [
    job("sched", "h_thread.c", "sched", 480000, 2000000, timeout=60, instrument=True, wraps=_INI),
    job("sched-asan", "h_thread.c", "schedasan", 48000, 100000, timeout=60, cflags=["-DDEBUG", "-D_DEBUG"], wraps=_INI),
    job("races", "h_thread.c", "tsan", 3200, 12000, opts={"real": 1}, wraps=_INI),
    job("real", "h_thread.c", "plain", 6400, 20000, opts={"real": 1}, wraps=_INI),
], "Each case is 2-5 threads setting and waiting for signals, locking, or counting and exchanging values; distinct by the "
   "sequence of thread switches of the controlled schedule (or by the seed with real threads).",
    technique="controlled-schedule stress with linearizability oracle for signals, conservation oracle for atomics, ThreadSanitizer",
    floors={"sets": 20000, "waits_ended": 20000, "left_waiting": 2000, "turns": 20000, "locked": 20000, "double_width": 1000, "exchange_loops": 2000, "counts": 2000, "exchanged": 2000, "not_exchanged": 2000, "failed_signals": 5000})
check("C34", "Calls on separate data never disturb one another", [
    job("sched", "h_reent.c", "sched", 6000, 60000, timeout=60),
    job("sched-asan", "h_reent.c", "schedasan", 1200, 12000, timeout=60, cflags=["-DDEBUG", "-D_DEBUG"]),
    job("races", "h_reent.c", "tsan", 1200, 20000, opts={"real": 1}),
    job("real", "h_reent.c", "plain", 2000, 20000, opts={"real": 1}),
    job("objects-races", "h_reentcpp.cpp", "tsan", 1600, 20000),
    job("objects", "h_reentcpp.cpp", "plain", 8000, 80000),
], "Each case is 2-4 threads of 2-40 calls of 25 kinds, on data of their own and on shared objects that are only read, repeated from "
   "what the same calls gave one after another; distinct by the sequence of thread switches (or by the seed with real threads).",
    technique="differential of concurrent against sequential results under controlled schedules, ThreadSanitizer",
    floors={**{k: 1000 for k in ['addresses', 'floats', 'strings', 'messages', 'evidence', 'prefixes', 'headers found', 'headers made', 'properties found', 'properties made', 'overrides', 'composed evidence', 'profile ids', 'trees', 'tree found', 'text', 'yaml', 'files', 'temporary files', 'look ups', 'searches', 'pools', 'caches', 'resources', 'memory', 'results', 'lists of results', 'evidence objects', 'address objects', 'required properties', 'engine', 'entities', 'exceptions']}, "oracle_checks": 10000})

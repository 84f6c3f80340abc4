"""Source of properties.jsonl (tools/gen.py writes it)."""
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))


p("C01", "A shared resource is never freed while held, nor freed twice",
  "A resource obtained from a resource manager stays valid and unchanged until its user gives it back, "
  "even when other threads replace it or free the manager meanwhile. "
  "Every retired resource is freed exactly once, and only after its last user gave it back.",
  ["schedules", "histories"],
  "every interleaving of any number of users (obtain, read, give back), replacers and a final free of the manager",
  "The tests run one thread, or a few threads on whatever interleavings the machine happens to give; "
  "the windows between reading the handle and counting the use are a few instructions wide.",
  ["resource.c", "resource.h", "threading.h"],
  [("use counting by compare-and-swap of the self pointer with the count", "resource.c: ResourceHandleIncUse, ResourceHandleDecUse"),
   ("free when the count is zero and the handle is no longer active", "resource.c: fiftyoneDegreesResourceHandleDecUse, setReplaced, freeHandle")],
  [("active handle", "what the next user gets", "ResourceManager.active"),
   ("in-use count", "users holding the handle", "ResourceHandle.counter")],
  ["the resource's free callback", "the bytes of the resource while held"])

p("C02", "Replacing a resource loses nothing and leaks nothing",
  "After any number of possibly concurrent replacements each installed resource except the current one has been freed exactly once as soon as its users are gone, "
  "the current one is one of those installed, and a user obtaining the resource after a replacement has returned never gets one retired before that replacement began. "
  "Freeing the manager frees the current resource once no user holds it, and nothing stays allocated after the last user gives it back.",
  ["schedules", "histories"],
  "every interleaving of concurrent replacers and users and every sequence of replacements",
  "Tests replace from one thread; a lost or doubly installed resource needs two replacers inside the swap at once.",
  ["resource.c", "resource.h"],
  [("atomic exchange of the active handle", "resource.c: ResourceReplace"),
   ("freeing of the manager", "resource.c: ResourceManagerFree")],
  [("active handle", "the one current resource", "ResourceManager.active")],
  ["free callbacks per installed resource", "allocation balance"])

p("C03", "The cache returns the data of the key, unchanged while held",
  "A cache lookup by any thread returns the data its loader produces for exactly that key, and the data stays unchanged until that user releases it, whatever other threads look up or evict meanwhile. "
  "No concurrent use of the cache has a data race or a deadlock.",
  ["schedules", "histories", "inputs"],
  "every interleaving of concurrent lookups and releases over any keys, capacities down to the number of threads, and shard counts",
  "The tests' multi-threaded cache test samples a few schedules with values it seldom reads back while others evict.",
  ["cache.c", "cache.h", "tree.c"],
  [("shard mutex around lookup, load and list moves", "cache.c: CacheGet, CacheRelease"),
   ("active count keeps a held entry off the least recently used list", "cache.c: CacheGet, CacheRelease")],
  [("active count", "users holding the entry", "CacheNode.activeCount")],
  ["content of held data", "loader calls per key"])

p("C04", "The cache keeps the most recently used entries within its capacity",
  "A lookup whose entry is resident is a hit and does not load again; otherwise the entry is loaded into a free slot or replaces the entry that nobody holds and that was given back longest ago. "
  "The cache never keeps more entries than its capacity, fails the lookup only when every slot is held or the load fails, its hit and miss counts match what happened, and a failed load costs no slot and disturbs no entry but the one it would have replaced.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of lookups (integer and other key types, any hash value), nested holds, releases and failing loads at any capacity and shard count",
  "The tests cover a few fixed access orders and never fail a load or use extreme key hashes.",
  ["cache.c", "cache.h", "tree.c"],
  [("recency list per shard with sentinel ends", "cache.c: cacheRemoveFromList, cacheAddToHead, cacheGetNextFree"),
   ("ordered index from key hash to entry", "cache.c + tree.c")],
  [("recency list", "unheld entries by time of last use", "CacheShard.first/last")],
  ["loader calls", "returned data", "hit and miss counts"])

p("C05", "A pooled item belongs to at most one user at a time",
  "An item taken from a pool, for instance a file handle on the data file, is held by no other thread until it is released, and releasing makes it available again. "
  "At most the pool's capacity of items is created; asking when all are out reports the exhaustion and nothing else, and closing the pool closes every item exactly once.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of takers and releasers, every order of failing item creations, and reset and free afterwards",
  "The tests hammer the pool on free-running threads and do not see duplicates that need an interleaving within the lock-free stack.",
  ["pool.c", "pool.h", "file.c", "file.h"],
  [("lock-free stack whose head is an index with a change counter", "pool.c: PoolItemGet, PoolItemRelease"),
   ("pool of file readers", "file.c: FilePoolInit, FileHandleGet, FileHandleRelease")],
  [("head", "top of the stack of free items and a generation", "Pool.head")],
  ["ownership of each item", "item creations and closures", "open file descriptors"])

p("C06", "Every way of storing a collection gives the same items",
  "For one data file, every storage configuration of a collection (all in memory, streamed from file, cached, partly loaded, in any combination) returns for each index exactly the bytes of that item as written in the file, for fixed and variable width items. "
  "An index or offset outside the collection gives an error and no item, and items read earlier stay valid until released.",
  ["inputs", "configurations", "histories"],
  "every well formed file of items and every configuration of loaded counts, cache capacity and file handles, read in any order with any number of items held",
  "Tests compare a handful of collections with fixed contents in the standard configurations, mostly reading one item at a time.",
  ["collection.c", "collection.h", "cache.c", "file.c"],
  [("choice of reader by configuration", "collection.c: CollectionCreateFromFile, CollectionCreateFromMemory"),
   ("fixed and variable width reads", "collection.c: CollectionReadFileFixed, CollectionReadFileVariable")],
  [("item handle", "what must be released", "CollectionItem.handle")],
  ["item bytes", "status codes"])

p("C07", "Collections can be read by many threads at once",
  "Threads reading and releasing items of a shared collection concurrently each see exactly the stored bytes of the item they asked for until they release it, in every storage configuration. "
  "There is no data race or deadlock, and when all have finished no file handle, cache entry or memory stays in use.",
  ["schedules", "configurations"],
  "every interleaving of concurrent readers over every storage configuration that allows that many",
  "The existing tests read collections from threads only on free-running schedules and do not check the bytes against the file.",
  ["collection.c", "cache.c", "pool.c", "file.c", "memory.c"],
  [("cached reads pin the entry", "collection.c: getFromCache, releaseCache"),
   ("file reads use a pooled handle", "collection.c: CollectionReadFile...")],
  [],
  ["item bytes", "open file handles", "allocation balance", "race reports"])

p("C08", "Damaged data and failing reads give an error, never corruption",
  "When a data file is truncated, has wrong counts or lengths, or a read, seek or allocation fails at any point, opening or reading the collection reports an error status and returns no item. "
  "No memory outside the data is read or written, nothing is leaked or freed twice, file handles return to the pool, and later reads of undamaged items are still right.",
  ["inputs", "fault_sequences", "crash_points"],
  "every truncation point and every single corrupted length, count or offset field, and every single failing file operation during open and read, in every storage configuration",
  "Tests only use intact files; error branches are not executed.",
  ["collection.c", "file.c", "memory.c", "cache.c"],
  [("bounds checks against the header and file size", "collection.c"),
   ("release of buffer and handle on failed reads", "collection.c: readFileVariable, CollectionReadFileFixed")],
  [],
  ["status codes", "sanitizer reports", "allocation balance", "open file handles"])

p("C09", "Binary search of a sorted collection finds exactly what is there",
  "Searching a range of a sorted collection returns the index and the item whose key equals the wanted one, and when there is none returns -1. "
  "The item returned is the one at that index and the caller's to release, every other item read on the way is released, and an error while searching is reported rather than returned as a match.",
  ["inputs", "configurations"],
  "every sorted collection, search range including empty and single item ranges, and wanted value below, between and above the keys, in every storage configuration",
  "Tests look up a few present names; absent values at all positions, sub-ranges and leaks of intermediate items are not checked.",
  ["collection.c", "collection.h"],
  [("halving search over item reads", "collection.c: CollectionBinarySearch")],
  [],
  ["returned index and item", "items still held"])

p("C10", "Data set lookups agree with a plain reading of the data",
  "Looking up profiles by id or offset, values of a profile for a property, properties and values by name, and key-value pairs of a component returns exactly the entries a straightforward scan of the same data finds, in the same order, and reports absent ones as absent. "
  "Every iteration calls back once per entry until told to stop, no look up leaves an item held, and a failed read is reported, never taken for an absent entry.",
  ["inputs", "configurations"],
  "every well formed set of component, property, value, profile and string records and every wanted id or name, in every storage configuration",
  "The existing tests have no data set for these records at all; they are only exercised by dependent products.",
  ["profile.c", "property.c", "value.c", "component.c", "string.c"],
  [("binary and linear searches over collections", "profile.c, property.c, value.c, component.c")],
  [],
  ["returned entries", "callback sequence", "items still held"])

p("C11", "The ordered index stays correct and balanced",
  "After any sequence of insertions and removals the index holds exactly the keys inserted and not removed: each is found with its own entry, no other is, the count is right and an iteration visits each once. "
  "The depth stays within twice the logarithm of the number of entries.",
  ["histories", "inputs"],
  "every history of insertions and removals of distinct 64 bit keys, in any order",
  "No test exercises the index directly; the cache tests reach only the shapes their few keys produce.",
  ["tree.c", "tree.h"],
  [("red-black rebalancing", "tree.c: fiftyoneDegreesTreeInsert, fiftyoneDegreesTreeDelete")],
  [("links and colours", "shape of the index", "TreeNode")],
  ["TreeFind, TreeCount, TreeIterateNodes"])

p("C12", "Memory helpers never exceed the block they were given",
  "Reading through a bounded memory reader succeeds exactly when the wanted bytes lie inside the block, and after each success the position has advanced by just those bytes. "
  "Growable data buffers are always at least as big as asked for, lists give back the items added in order and release each exactly once, and the tracking allocator's totals always equal what is allocated.",
  ["inputs", "histories", "schedules"],
  "every sequence of reads of any size including zero and over-long ones, every sequence of buffer and list operations, and concurrent tracked allocations",
  "Tests check a few in-bounds sizes; the boundaries are sampled at one or two points and concurrency is not checked.",
  ["memory.c", "memory.h", "data.c", "list.c"],
  [("bounds comparison before advancing", "memory.c: MemoryAdvance"),
   ("sharded tracking of allocations", "memory.c: MemoryTracking...")],
  [],
  ["returned values and reader position", "sanitizer reports", "allocator totals"])

p("C13", "IP address text is parsed exactly and safely",
  "Every well formed IPv4 or IPv6 text, alone or in a comma or space separated list, is parsed to the type and bytes the standard text forms define, and an IPv4 octet out of range is clamped to 0 or 255. "
  "Any other text is handled without touching memory outside the text and the result, leaving every byte of the result defined, and freeing the result frees all of it. "
  "Address objects and comparisons agree with the bytes.",
  ["inputs"],
  "every text: all abbreviation forms, upper and lower case, embedded IPv4, and arbitrary hostile strings of any length",
  "The tests parse a table of fixed strings and cannot see out of bounds writes or undefined bytes.",
  ["ip.c", "ip.h", "IpAddress.cpp"],
  [("segment iteration with a count pass and a build pass", "ip.c: iterateIpAddress")],
  [],
  ["parsed bytes and type", "sanitizer reports", "allocation balance"])

p("C14", "Header names resolve to one stable unique id each",
  "Building the header list from the data set's names gives each distinct name, ignoring case, one entry with its unique id, including every part of a combined (pseudo) header, and links each combined header to its parts in order. "
  "A name is found by any letter case and, when asked for, with the HTTP_ prefix; a name not in the list is reported as absent.",
  ["inputs"],
  "every list of plain and combined header names, including repeats in other case, parts listed before or after their combination, empty parts and stray separators",
  "The tests use small fixed lists without malformed or overlapping combined names.",
  ["headers.c", "headers.h"],
  [("segment iteration on the separator", "headers.c: HeadersCreate"),
   ("case insensitive comparison", "headers.c: getHeaderIndex, HeaderGetIndex")],
  [],
  ["HeaderGetIndex, HeaderGetFromUniqueId, HeadersIsHttp", "sanitizer reports"])

p("C15", "Pseudo-header evidence is composed from its parts",
  "When evidence holds every part of a combined header, the composed evidence is exactly the parts' values joined by the separator in the combination's order, taken from query evidence in preference to header evidence as documented, and is not composed when a part is missing or the combined name itself was supplied. "
  "A composed value which is too long is cut to fit its buffer, no more are composed than there is space for, and removing them clears the buffers and leaves the evidence as it was.",
  ["inputs"],
  "every header list and every evidence with parts present, missing, empty, over-long or supplied under several prefixes",
  "Tests check a few fixed combinations with values that fit.",
  ["pseudoheader.c", "pseudoheader.h", "headers.c", "evidence.c"],
  [("composition into a bounded builder", "pseudoheader.c: PseudoHeadersAddEvidence, PseudoHeadersRemoveEvidence")],
  [],
  ["composed evidence", "allocation balance", "sanitizer reports"])

p("C16", "Evidence comes back exactly as it was added",
  "Iterating evidence calls back once, in order, for each pair added with one of the wanted prefixes, with the value unchanged, stopping when the callback says so, followed by those composed for combined headers. "
  "Adding beyond the capacity changes nothing that was added, and a prefixed key is split into its prefix and name exactly when it starts with a known prefix and has a name after it.",
  ["inputs", "histories"],
  "every sequence of additions of any prefix, key and value text up to and beyond the capacity, every prefix mask and header list",
  "Tests use a few hand written keys and one or two prefixes.",
  ["evidence.c", "evidence.h", "EvidenceBase.cpp"],
  [("array of pairs with a capacity", "evidence.c: fiftyoneDegreesEvidenceAddString"),
   ("prefix map", "evidence.c: EvidenceMapPrefix")],
  [],
  ["callback sequence"])

p("C17", "Property overrides in evidence take effect for that property only",
  "Each override given in evidence for an overridable required property, as query or cookie, in any letter case and with the 51D_ prefix or without, is returned as that property's value, the last one where it is repeated; properties without an override return none. "
  "A profile override yields each profile id listed and no other, and the property which might override another is one whose name extends the other's name. "
  "Storage for overrides never overflows and releasing it frees all of it.",
  ["inputs"],
  "every set of required properties and every evidence of override keys, known, unknown, repeated, over-long and malformed profile lists",
  "Tests use a handful of keys and values.",
  ["overrides.c", "overrides.h"],
  [("match of evidence keys against required properties", "overrides.c: OverridesExtractFromEvidence, OverridesAdd"),
   ("parsing of profile id lists", "overrides.c: OverrideProfileIds")],
  [],
  ["OverrideValuesGet", "profile id callbacks", "sanitizer reports"])

p("C18", "Required properties map to exactly the available ones asked for",
  "The available list holds each data set property that was required (or all of them when none is named), once each, sorted so that every one is found by its name in any letter case with its index, and none that was not asked for or does not exist. "
  "Each is linked to exactly the evidence properties reported for it, and a separator or space variant in the required string makes no difference.",
  ["inputs"],
  "every set of data set property names and every required list or string, with repeats, other case, unknown names, empty parts and any separator",
  "Tests use three or four names.",
  ["properties.c", "properties.h"],
  [("separator counting and matching", "properties.c: PropertiesCreate"),
   ("sorting then binary search", "properties.c: PropertiesGetRequiredPropertyIndexFromName")],
  [],
  ["available list", "index lookups", "sanitizer reports"])

p("C19", "Temporary files are copies of the master and never hurt other files",
  "Creating a temporary file gives a file in one of the usable configured directories with exactly the master's bytes, or an error with no file left behind; an existing copy is reused only if its contents equal the master's. "
  "Cleaning up deletes only unused temporary copies of this master and never the master, a file in use or any other file.",
  ["inputs", "fault_sequences", "configurations"],
  "every master name and content, list of directories (missing, unwritable, several), set of other files present, and failing file operation",
  "Tests use one directory and one master, and never inject a failing read, write or full disk.",
  ["file.c", "file.h"],
  [("name built from master name, process and counter", "file.c: FileAddTempFileName"),
   ("content comparison, in-use check", "file.c: compareFiles, isFileInUse")],
  [],
  ["directory contents before and after", "recorded removals"])

p("C20", "File helpers report success only when the whole file was handled",
  "Copying, writing or loading a file returns success only if every byte of the source is at the destination, in order; otherwise it returns an error code saying so. "
  "Whatever fails, every file opened is closed and every buffer is freed or handed to the caller.",
  ["inputs", "fault_sequences"],
  "every file size including empty and non multiples of any block size, and each single failing open, read, write, seek, tell or close",
  "Tests copy one intact file; no failure is injected.",
  ["file.c", "file.h"],
  [("block-wise copy", "file.c: FileCopy, FileWrite"),
   ("load into memory", "file.c: FileReadToByteArray")],
  [],
  ["bytes at the destination", "open files", "status codes"])

p("C21", "A text file is handed over line by line, complete and in order",
  "Iterating a text file calls back once for each line that is not empty, in order, with exactly the line's text without its line end, for LF and CRLF ends, whether or not the last line is ended, and for no more lines than the limit. "
  "A line longer than the given buffer is never written past the buffer's end, and the other lines are still returned.",
  ["inputs"],
  "every file content, line lengths around the buffer size, empty lines and files, and lines and line ends falling on a refill boundary",
  "Tests use one sample file whose lines are short.",
  ["textfile.c", "textfile.h"],
  [("refilled window over the file", "textfile.c: TextFileIterateWithLimit")],
  [],
  ["callback sequence", "sanitizer reports"])

p("C22", "YAML documents yield exactly their key-value pairs",
  "Iterating a YAML file calls back once per document that has any pairs, in order, with exactly its key-value pairs with the quotes around values removed, until the document limit or the end marker is reached. "
  "Keys and values longer than the buffers, or more pairs than fit, are cut off or reported and never written past the given storage. A file that can't be opened or read is reported.",
  ["inputs"],
  "every file of supported documents, quoting style, lengths around the buffer sizes, pair counts around the capacity, and arbitrary text",
  "Tests use a few short well formed files.",
  ["yamlfile.c", "yamlfile.h"],
  [("character state machine over a refilled buffer", "yamlfile.c: YamlFileIterateWithLimit")],
  [],
  ["callback sequence", "sanitizer reports"])

p("C23", "Floats keep their value through the portable byte form",
  "Every finite float, normal, subnormal or zero, converted to the portable byte form and back has the same value, and the bytes are those of the IEEE single precision layout (the sign of zero aside). Infinity and NaN stay infinity and NaN. "
  "Two forms are equal exactly when their bytes are, and a coordinate read from a string of that type has the latitude and longitude stored, while any other string gives an error and none.",
  ["inputs", "configurations"],
  "all 2^32 single precision bit patterns, and any stored bytes",
  "Tests convert a dozen values and only in the build where the conversion is the identity.",
  ["float.c", "float.h", "coordinate.c"],
  [("bitwise assembly of sign, exponent and mantissa", "float.c: FloatToNative, NativeToFloat")],
  [],
  ["converted values and bytes"])

p("C24", "String helpers agree with their definitions and respect bounds",
  "Case insensitive comparison, length limited comparison and search for a non-empty substring (its first occurrence) give the result of a plain character by character definition; for ASCII text the sign of a comparison is a consistent order. "
  "No operation reads past a terminator or given length. The value and IP address of a stored string are found where they are stored, or are null when there is none, and integers and booleans convert as in C.",
  ["inputs"],
  "all strings and lengths including zero",
  "Tests compare a few pairs.",
  ["string.c", "string.h", "bool.c"],
  [("character loops", "string.c: StringCompare, StringCompareLength, StringSubString")],
  [],
  ["results", "sanitizer reports"])

p("C25", "Every status has one clear message, delivered to the caller",
  "Every status code yields its own complete message, those about the data file naming it, and a code without a text yields a message saying so with the whole code; the message returned is the caller's to free and is independent of later ones, and when there is no memory for it there is none. "
  "An exception text holds its status message and the file, function and line it was raised at when known; C++ exceptions carry the same text and always the code; and in C an exception that is set ends the process with that text on standard error and the status as exit code, one that is not set does nothing.",
  ["inputs", "configurations"],
  "every status code in and outside the enumeration, any data file name, with and without exception support",
  "Tests look at a few codes.",
  ["status.c", "status.h", "exceptionsc.c", "exceptions.h", "Exceptions.cpp"],
  [("table from status to text", "status.c: StatusGetMessage"),
   ("format into allocated text", "exceptionsc.c: ExceptionGetMessage")],
  [],
  ["message text", "allocation balance"])

p("C26", "Reloading a data set is atomic for its users",
  "A reload from file or memory that succeeds makes the new data visible to every later user while users of the old data keep it intact until they release it, and then it is freed exactly once; "
  "a reload that fails reports why, keeps the old data in service and leaks nothing. Initialising applies the required properties and configuration given.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of users and reloaders, and every failing step of a reload, by file and by memory, with and without temporary files",
  "No test in this repository reloads a data set under load or with a failure.",
  ["dataset.c", "dataset.h", "resource.c"],
  [("initialise a replacement then swap it in", "dataset.c: DataSetReloadManagerFromFile, DataSetReloadManagerFromMemory")],
  [],
  ["data seen by users", "frees of old data", "allocation balance"])

p("C27", "C++ results give each property's values or say why there are none",
  "A value object holds either a value or the reason there is none, and so do its copies: asking it for a value it does not have throws the exception for that reason with its message. "
  "Results give the stored values whether asked by index or by name in any case: all of them as a list, joined with '|' as text, and a single one converted as bool (exactly 'True'), integer or double, several being too many for those. "
  "They show the data they were made from, which is freed once, as long as they exist, even after it was replaced or the engine destroyed.",
  ["inputs", "histories"],
  "every combination of property access, stored values (none, one, many; any text) and typed getter, in any order of reloading the engine and destroying results and engine",
  "Tests cover a handful of value types.",
  ["ResultsBase.cpp", "ResultsBase.hpp", "Value.hpp", "results.c"],
  [("value or no-value state", "Value.hpp"), ("conversion", "ResultsBase.cpp")],
  [],
  ["returned values, reasons and exceptions"])

p("C28", "C++ metadata entities hold and compare what the data says",
  "A metadata entity (component, profile, property, value, date) keeps exactly the attributes it was made from through every copy and assignment, and two entities are equal exactly when their keys are, case included. "
  "The order of value keys is strict and total and keeps the values of a property together. "
  "A string read for an entity is the one in the data, or a FatalException with the status is thrown, and in both cases nothing stays held; the metadata keeps its manager alive.",
  ["inputs", "histories"],
  "any attributes, any pair or triple of keys, any string index inside and outside the data with reads that fail",
  "Tests build one or two entities by hand.",
  ["MetaData.cpp", "MetaData.hpp", "EntityMetaData.hpp", "EntityMetaDataBuilder.hpp", "PropertyMetaData.cpp", "ValueMetaData.cpp", "ProfileMetaData.cpp", "ComponentMetaData.cpp", "Date.cpp"],
  [("comparison by key", "EntityMetaData.hpp, ValueMetaData.cpp"), ("reading strings of the data", "MetaData.cpp, EntityMetaDataBuilder.hpp")],
  [],
  ["returned attributes", "held items", "exceptions"])

p("C29", "C++ configuration and evidence objects keep what they were given",
  "Required properties, collection, temporary directory and evidence settings made through the C++ classes are what the underlying configuration then holds, in the order given, however often they are read, replaced or copied, and reading never changes them. "
  "Names in one text are separated by commas, empty ones not counted. Evidence is, each time it is asked for, exactly the present pairs with a known and relevant prefix, without that prefix. "
  "Copies own what they hold, nothing leaks or is freed twice, and without memory a StatusCodeException says so.",
  ["inputs", "histories"],
  "every sequence of setting, reading, copying and destroying, with any list of names, directories and evidence pairs",
  "Tests set each value once and read it once.",
  ["RequiredPropertiesConfig.cpp", "CollectionConfig.cpp", "ConfigBase.cpp", "EvidenceBase.cpp"],
  [("ownership of strings behind the C structures", "RequiredPropertiesConfig.cpp, ConfigBase.cpp, EvidenceBase.cpp")],
  [],
  ["getters and C structures", "allocation balance"])

p("C30", "Single threaded and memory-only builds behave like the full build",
  "Built without threading, or for in-memory data only, the library gives the same results for the same single threaded use of resources, pools, caches, collections and data sets as the full build. "
  "It frees what it allocates and stays within its memory.",
  ["configurations", "inputs", "histories"],
  "both reduced builds over every history of single threaded use that the full build supports",
  "The test suite is built in one configuration only.",
  ["threading.h", "resource.c", "pool.c", "cache.c", "collection.c"],
  [("alternative code under build defines", "FIFTYONE_DEGREES_NO_THREADING, FIFTYONE_DEGREES_MEMORY_ONLY")],
  [],
  ["the same oracles as C02, C04, C05, C06 in those builds"])

p("C31", "Running out of memory is reported and leaves nothing behind",
  "When any single allocation fails, or all allocations from some point on, every operation that allocates reports insufficient memory or yields no result, without crashing. "
  "It releases everything it had allocated, closes the files it had opened, and the objects it was given stay usable. "
  "The C++ objects throw instead, and never give part of a value as if it were all.",
  ["fault_sequences", "crash_points"],
  "each allocation of each constructing or loading operation failing in turn, singly and persistently",
  "No test fails an allocation.",
  ["pool.c", "cache.c", "collection.c", "headers.c", "properties.c", "overrides.c", "file.c", "evidence.c", "list.c", "pseudoheader.c", "resource.c", "MetaData.cpp", "Exceptions.cpp", "ConfigBase.cpp", "ResultsBase.cpp", "EngineBase.cpp"],
  [("checks of allocation results", "every creating function")],
  [],
  ["status codes", "allocation balance", "sanitizer reports"])

p("C32", "Engine evidence keys and update address are exactly as configured",
  "The keys an engine accepts are, each once and in order, the documented prefixes combined with each plain header and each overridable property, with the upper-case prefixes only when configured, and never a combined header. "
  "The update address is the one set, or else the one composed from the licence key, type and product when a licence key is set, or else empty, and automatic updates count as enabled exactly when it is not empty.",
  ["inputs", "histories"],
  "every order of setting and reading the licence key and address with any text, and every list of headers and overridable properties",
  "Tests compare one address and never list the keys of a data set.",
  ["EngineBase.cpp", "EngineBase.hpp"],
  [("key composition without repeats", "EngineBase.cpp: initHttpHeaderKeys, initOverrideKeys, addKey"),
   ("address composition", "EngineBase.cpp: getDataUpdateUrl")],
  [],
  ["returned keys and address"])

p("C33", "Signals, locks and atomic operations lose nothing",
  "A signal starts set; each wait that returns has used up one set, setting it while set changes nothing, and a set is never lost, whichever threads set and wait meanwhile and even when waits wake without cause. "
  "A mutex has at most one holder. Atomic increments and decrements all count and return the value they made; a compare and exchange, also of double width, replaces the value only when it is the one compared with, in one step, and says what it found or whether it did. "
  "A signal that can't be fully created is not created and leaves nothing behind.",
  ["schedules", "faults"],
  "every interleaving of threads setting, waiting, locking and counting, and every failing part of a creation",
  "The tests call each once from one thread; lost wake-ups and torn exchanges need another thread between two instructions, or a wait that wakes without cause.",
  ["threading.c", "threading.h"],
  [("wait flag guarded by the signal's mutex, waited for in a loop", "threading.c: fiftyoneDegreesSignalSet, fiftyoneDegreesSignalWait"),
   ("compiler's atomic operations", "threading.h: FIFTYONE_DEGREES_INTERLOCK_INC, FIFTYONE_DEGREES_INTERLOCK_EXCHANGE, FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW")],
  [("wait flag", "whether a wait must block", "fiftyoneDegreesSignal.wait")],
  ["calls and returns of waits and sets", "values returned by the atomic operations"])

p("C34", "Calls on separate data never disturb one another",
  "Calls made by several threads at once give each thread what it would get alone, as long as each works on objects of its own (evidence, overrides, trees, pools, caches, header and property lists, buffers, files, text) or only reads shared ones (header lists, available and overridable properties, trees, collections in memory, status texts). "
  "No call keeps a result, a buffer or a count of its own between calls or threads, no shared object is changed by looking something up in it, and nothing is left behind.",
  ["schedules"],
  "every mix of calls from any number of threads, at every interleaving of their instructions",
  "The tests make these calls from one thread; a buffer or a remembered look up shared by all callers gives right answers until two threads are inside at once.",
  ["file.c", "headers.c", "properties.c", "overrides.c", "pseudoheader.c", "status.c", "ip.c", "tree.c", "yamlfile.c", "profile.c", "value.c"],
  [("no state outside the arguments", "ip.c, float.c, string.c, status.c, exceptionsc.c, evidence.c, yamlfile.c, textfile.c, file.c"),
   ("look ups which do not change what they search", "headers.c: fiftyoneDegreesHeaderGetIndex; properties.c: fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName; tree.c: fiftyoneDegreesTreeFind; profile.c: fiftyoneDegreesProfileGetByProfileId; value.c: fiftyoneDegreesValueGetIndexByName")],
  [],
  ["results of calls made at once and one after another", "memory and files left"])

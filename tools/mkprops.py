import json
L='poppy/src/bloom.rs'; V1='poppy/src/bloom/v1.rs'; V2='poppy/src/bloom/v2.rs'; BIN='poppy/src/bin/poppy.rs'; H='poppy/src/hash.rs'; U='poppy/src/utils.rs'; PY='python/src/lib.rs'
BA='poppy/src/bitset/array.rs'; BV='poppy/src/bitset/vec.rs'; BU='poppy/src/bloom/utils.rs'; FNV='poppy/src/hash/fnv.rs'; WY='poppy/src/hash/wyhash.rs'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","No false negatives","Every value whose insertion succeeded is reported as contained from then on, in both filter formats and at every optimization level. This survives any later insertions (accepted or refused), unions, clones and save/load cycles, for values of any content and length and filters of any capacity and probability, and stops only when the filter is cleared or replaced by an intersection with a filter that does not contain the value.",
  ["histories","inputs","configurations"],"all sequences of insert / bulk insert / refused insert / union / intersection / clone / clear / save+load over filters of any version, optimization level, capacity >= 1 and fpp in ]0;1], with byte-string values of any length",
  "tests insert a few short words, u64 counters or prepared integers into a handful of geometries with opt level none; no history mixes union, reload and optimized filters, and no value is longer than a line of text",
  [L,V1,V2,H,BA,BV],[("insert sets the same bits that contains reads",V2+" insert_iter/contains_iter, "+V1+" insert_bytes/contains_bytes"),("index cache bit set together with bucket bits",V2+" insert_iter")],
  ["insert_bytes/contains_bytes and typed variants"],[("buckets","partitioned bit sets",V2),("index_cache","pre-filter bit set",V2),("bitset","flat bit set",V1)])

p("C02","False positive rate within the requested probability (default format)","A filter of the default (v2) format that holds at most `capacity` distinct values answers `contained` for values that were never inserted at a rate that does not exceed the requested false positive probability by more than 20 percent (the tolerance of the benchmark command) plus sampling error. This holds for textual, digest-like and binary values longer than eight bytes and for typed integers, options and structures, for every capacity, down to a probability of 1e-5 at optimization levels 0 and 1 and down to 0.005 at levels 2 and 3 (smaller probabilities and structured values of at most eight bytes meet known limits of the file format).",
  ["inputs","configurations"],"all capacities, probabilities (within the stated limits), optimization levels 0-3 and data kinds, however the filter was filled (directly, in bulk, by union, across save/load, after a clear); queried values distinct from every inserted one",
  "the one test of the rate is skipped in debug builds, uses fpp 0.001 and opt level none only; the optimized levels have no rate test at all",
  [V2,BU,H,WY,BA],[("bucket capacity, bucket count and number of hashes derived from fpp",V2+" make"),("double hashing with xorshift bucket choice",V2+" IndexIterator")],["contains_bytes on values never inserted"])

p("C03","Capacity is enforced and refused inserts change nothing","Inserting a value fails with the too-many-entries error exactly when the estimated number of elements has reached (or, after a union, exceeds) the capacity and the value is not already reported as contained; a filter of capacity zero refuses everything. A refused insert leaves the filter, as serialized, unchanged, and the filter reports itself full exactly when its estimated count is at least its capacity.",
  ["histories","configurations"],"all histories of insert, union, clear and reload that reach, stay at, exceed or leave the capacity, for both formats and all optimization levels",
  "one test fills a v1 filter of capacity 5 and checks one refused value, one fills a v2 filter of capacity 10 and checks is_full; no test inspects state after a refusal, reinserts while full, or goes over capacity by a union",
  [V1,V2,L],[("capacity test before a new bit is set",V2+" insert_iter, "+V1+" insert_bytes"),("is_full",V1+", "+V2)],["insert_bytes result, is_full, count_estimate, write"])

p("C04","Insert result and element count are consistent with membership","A successful insert returns true exactly when the value was not reported as contained just before it, and the estimated count grows by one exactly in that case. Consequently, as long as only inserts, clears, clones and save/load cycles happen, the estimated count is the number of inserts that returned true since creation or the last clear, reinserting a value never changes the filter, and bulk insertion is equivalent to inserting one by one.",
  ["histories","inputs"],"all insertion histories with repetitions and colliding values, both formats, all optimization levels",
  "tests look at the count after one to five distinct inserts in nearly empty filters, where collisions and cache effects do not occur",
  [V1,V2,L],[("new flag computed from bits found unset",V2+" insert_iter, "+V1+" insert_bytes"),("count increment",V1+", "+V2)],["insert_bytes result, contains_bytes, count_estimate"])

p("C05","Save and load preserve a filter completely","Writing a filter and loading it back, through the generic or the version-specific interface and with any reader or writer that transfers data in arbitrary pieces or starts in the middle of a stream, yields a filter with the same version, capacity, probability, count, attached data and membership answers, mergeable with the original, and which writes the same bytes again. From then on the loaded filter behaves identically to the original under any further operations.",
  ["histories","inputs"],"all filters reachable by any operation history and attached data of any length and content; all chunkings of the byte stream",
  "tests round-trip one filter per format with two values through an in-memory cursor and never compare bytes, reserialize, or continue operating after the load",
  [L,V1,V2,U,BV],[("write/from_reader field order",V1+", "+V2),("flags encoding",L+" Flags")],["write, from_reader"])

p("C06","DCSO (v1) files are compatible bit for bit","The serialized form of a v1 filter is exactly the one the DCSO bloom format prescribes for its capacity, probability, inserted values and attached data: header layout, number of bits and hash functions, and bit positions derived from FNV-1. Conversely any file in that format is loaded and answers membership for every value as the format prescribes.",
  ["inputs","configurations"],"all capacities, fpp and values of any length; both directions (poppy writes, poppy reads)",
  "one 10000-capacity file made by the Go tool is read back for five words, one fingerprint and two FNV values are compared; lengths, sizes and the write direction are not covered",
  [V1,FNV,BU,L],[("FNV-1",FNV),("fingerprint sequence",V1+" Fingerprint"),("size and k formulas",BU),("layout",V1+" write/from_reader_with_flags")],["bytes produced by write, contains after from_reader"])

p("C07","Poppy (v2) files are stable bit for bit","The serialized form of a v2 filter is a fixed function of its capacity, probability, optimization level, inserted values (byte strings or typed) and attached data (header layout, number of buckets and hashes, index cache, WyHash-derived bit positions), so filters written or expected by other releases stay valid. Conversely any file in that format is loaded and answers membership for every value as the format prescribes.",
  ["inputs","configurations"],"all capacities, fpp, optimization levels and values of any length; both directions",
  "tests compare the new hashing path with the old one for three strings and check one WyHash value; no test fixes the bit positions, geometry or layout of a v2 file",
  [V2,H,WY,BA,BV,BU,L],[("short values used as hash directly, longer ones digested",H),("double hashing",V2+" IndexIterator"),("geometry",V2+" make"),("layout",V2+" write/from_reader_with_flags")],["bytes produced by write, contains after from_reader"])

p("C08","Union equals inserting both sets","Merging two filters with the same parameters yields exactly the bits of a filter into which both sets of values were inserted, so it contains everything either contains; the merge is commutative, associative and idempotent in what the filter contains and leaves the other filter untouched. The count becomes an estimate within rounding of what the merged bits imply, and merging filters whose parameters (version, capacity, probability, optimization level, geometry) differ is refused with an error and changes nothing.",
  ["inputs","histories","configurations"],"all pairs and triples of filters, equal or different in any parameter, in both formats and all interfaces",
  "one union of two words with two words per format and one refused merge; optimized filters, several buckets, overlaps and unchanged state after refusal are not covered",
  [L,V1,V2,BA,BV],[("bitwise or of buckets and index cache",V2+" union_merge"),("bitwise or of blocks",V1+" union_merge"),("parameter comparison","has_same_params in "+L+", "+V1+", "+V2),("count estimate","update_count in "+V1+", "+V2)],["write before/after, contains_bytes, count_estimate"])

p("C09","Intersection and common-entry estimates are exact on the bits","The intersection of two v2 filters with the same parameters contains a value exactly when both filters contain it, hence every value inserted in both, and its count is an estimate within rounding of what its bits imply. The estimated number of common entries (both formats) is symmetric, is computed without changing either filter, and is within rounding of what the bits set in both imply; filters with different parameters are refused with an error and left unchanged.",
  ["inputs","histories","configurations"],"all pairs of filters, equal or different in any parameter",
  "one intersection of five words with five words in an unoptimized filter; the v1 estimate, optimized filters and refusals are not covered",
  [L,V1,V2,BA,BV],[("bitwise and of buckets and index cache",V2+" intersection_merge"),("count_common_entries",V1+", "+V2+", "+L)],["contains_bytes, count_estimate, count_common_entries"])

p("C10","Malformed filter data is rejected, never crashes","Loading any sequence of bytes, fully or partially and through any interface, returns a filter or an error: it never panics or aborts, whatever sizes the header announces, in a process limited to 4 GiB of memory. Data cut anywhere before the end of the header (for a full load, anywhere before the end of the bits), an unknown version, an unknown optimization level or (v2) a probability outside ]0;1] always gives an error, and a filter that was accepted can be used with every operation without panicking.",
  ["inputs"],"all byte strings, in particular valid files with corrupted header fields, flipped bytes, truncations and extensions",
  "no test loads malformed data",
  [L,V1,V2,U,BV],[("version/opt/fpp validation",L+" read_flags, "+V2+" from_reader_with_flags"),("sizes reserved fallibly before reading",U+" reserve")],["from_reader, partial_from_reader and all operations on the result"])

p("C11","Input/output failures are always reported","When writing a filter reports success, every byte of it has reached the writer: a writer that fails, refuses bytes or fails to flush at any point makes the write return an error. A reader that fails at any point before the end makes loading return an error, interrupted or short transfers are retried, and the command line tool exits successfully only if the complete filter is in the output file.",
  ["fault_sequences","crash_points"],"a failure injected at every byte offset (and at flush) of the written or read stream, for filters of all kinds and sizes, at library and process level",
  "all tests use in-memory cursors that cannot fail",
  [V1,V2,L,BIN,PY],[("errors propagated by write_all and flush",V1+" write, "+V2+" write"),("read_exact/read_to_end error propagation",V1+", "+V2)],["write/from_reader results, bytes received, exit status with a file size limit"])

p("C12","Reported metadata is true, also for partial loads","Version, capacity, probability, count and attached data reported by a filter are those it was created or saved with, and its size in bytes is exactly the space its bits take in the saved file. A partial load, which skips the bits, reports the same metadata, size and attached data as a full load of the same file, wherever in a stream the file starts and however the reader delivers it.",
  ["inputs","configurations"],"all filters of both formats and optimization levels with attached data of any length; full and partial loads",
  "one partially loaded filter per format with 256 bytes of data; the v1 size was never compared with anything",
  [L,V1,V2],[("relative seek over bits",V1+", "+V2+" from_reader_with_flags(partial)"),("size computed from stored geometry","size_in_bytes in "+V1+", "+V2)],["partial_from_reader, getters, length of written file"])

p("C13","Clearing gives back an empty filter","After a clear the filter contains nothing, has a count of zero, keeps its parameters and attached data, and is indistinguishable (as serialized, and under any further operations) from a new filter created with the same parameters and given the same attached data.",
  ["histories","configurations"],"any history before the clear, both formats, all optimization levels",
  "one test clears a v1 filter with two words; v2 clear is never called by a test",
  [L,V1,V2,BA,BV],[("clear of bits, cache and count",V1+" clear, "+V2+" clear")],["contains_bytes, count_estimate, write after clear"])

p("C14","Creation validates its parameters and honours them","Every way of creating a filter accepts a probability exactly when it is a normal number in ]0;1] (NaN, infinities, zero, negative, subnormal and larger values are refused with the dedicated error), refuses unknown versions and optimization levels, and otherwise returns an empty filter that reports the requested version, capacity and probability with zero elements. The different constructors and the parameter builder give the same filter for the same parameters, and the defaults are version 2 without optimization.",
  ["inputs","configurations"],"all f64 bit patterns for the probability, all u8 for version and optimization level, capacities from zero up to memory limits",
  "tests create filters with eight valid probabilities; no invalid probability, version or level is ever passed",
  [L,V1,V2],[("fpp range check",V1+" with_capacity, "+V2+" make"),("version dispatch",L+" with_version_capacity_opt"),("OptLevel::try_from",L)],["constructors of BloomFilter, v1, v2, Params"])

p("C15","Membership does not depend on how a value is passed","For v2 filters the same bytes passed as slice, vector, str, String or prepared index are one and the same value to insertion and lookup, through the generic, typed and prepared interfaces; integers, options and user types that hash equally are likewise found again after insertion. A prepared index can be reused any number of times on filters of any geometry, with the same result as passing the value, and an index that was not prepared is refused with an error.",
  ["inputs","configurations"],"all values, all pairs of representations, all filter geometries",
  "three strings are inserted in three ways and looked up in the others; prepared indexes are exercised on one geometry and the lookup result is ignored",
  [H,V2],[("PoppyHash implementations",H),("build_index_iter/insert_iter/contains_iter",V2)],["insert, contains, insert_bytes, insert_iter, contains_iter"])

p("C16","Bit sets behave as sets of indexes","The array and vector bit sets behave like a set of indexes within their length: setting and unsetting a bit changes that bit only and returns its previous value, clearing empties the set, union, intersection and the various counts agree with set operations, and lengths are as requested (rounded up to whole bytes). Indexes beyond the length panic rather than touch other bits.",
  ["histories","inputs"],"all sequences of bit set operations on sets of any length",
  "one test sets every bit of a 4096-byte set in order; unset, union and counting on odd patterns are not tested",
  [BA,BV],[("bit masks",BA+", "+BV)],["public bitset API"])

p("C17","CLI: what was inserted is found, independently of jobs and sources","Entries given to `poppy create` or `poppy insert` (one per line, from files or standard input, with any number of jobs and any distribution of entries over files) are all contained in the resulting file, whose bits are the same whatever the number of jobs and the order of files. `poppy check` prints exactly the queried entries the filter contains (with --verify exactly those it does not contain, marked NOK; with --silent and without --verify nothing), each as often as queried and in order for a single source, for any number of jobs.",
  ["inputs","configurations","schedules"],"all contents and line lengths of UTF-8 input files, LF or CRLF line ends with or without a final newline, any number of files, -j 0..N, stdin mixed with files, versions and optimization levels",
  "the command line tool has no tests",
  [BIN,L,V1,V2],[("map-reduce insertion",BIN+" parallel_insert"),("batched lookup",BIN+" Check")],["filter files, stdout, exit status"])

p("C18","CLI: a refused or failed command damages no file","A poppy command that fails because of its arguments or inputs (missing or unreadable input file, input that is not UTF-8, too many entries, invalid parameters, output file that is not a filter) exits with an error, leaves the filter file and every other file as they were and no new file behind, whether the failing input comes first or last. In particular create never overwrites an existing file that is not a filter, and check, show and bench never create or modify any file.",
  ["inputs","fault_sequences"],"all failing argument/input combinations at any position, any number of jobs, both formats",
  "the command line tool has no tests",
  [BIN],[("output opened only after all input is processed",BIN+" Create/Insert"),("existing output must load as a filter",BIN+" Create")],["exit status, bytes of all files before and after"])

p("C19","CLI: capacity is enforced on insertion","`poppy insert` of entries that would bring a filter above its capacity fails, whatever the source of the entries and the number of jobs, and `poppy insert` of entries that fit (including entries that are already contained, also when the filter is full) succeeds. `poppy create` from a dataset always succeeds on readable UTF-8 data: the capacity it chooses fits all entries.",
  ["inputs","configurations"],"all divisions of entries over stdin and files, all capacities and fill levels, any number of jobs",
  "the command line tool has no tests",
  [BIN,V1,V2],[("insert_bytes error propagation",BIN+" process_file"),("line count as capacity",BIN+" count_lines_parallel")],["exit status, filter file"])

p("C20","CLI: show and create report and apply the right parameters","`poppy create` makes a filter with exactly the requested version, capacity, probability and optimization level (capacity 10000, probability 0.01, version 2 and level 0 by default; the number of lines of all dataset files when created from a dataset, whatever the number of jobs). `poppy show` prints the version, capacity, estimated count, probability, data length and size the file has, with sizes expressed in the largest binary unit not above the value (1024-based B, KB, MB, GB, one decimal).",
  ["inputs","configurations"],"all parameter combinations, dataset divisions, data lengths and sizes",
  "the command line tool and the size formatting have no tests",
  [BIN,U],[("show_bf_properties",BIN),("ByteSize",U),("count_lines_parallel",BIN)],["stdout of show, header of the created file"])

p("C21","CLI: the benchmark verdict follows from what it measures","`poppy bench` fails when an entry it is given is missing from the filter file, and otherwise fails exactly when the mean of the false positive rates it prints exceeds the filter's probability by more than the given tolerance. The rates it prints are genuine: a filter sized for its data passes and a filter that claims a much smaller probability than it delivers is reported; --size-mb 0 means the whole input, and a positive number takes distinct entries from the start until that many megabytes are reached.",
  ["inputs","configurations"],"all datasets of lines and filters, tolerance, version and optimization level",
  "the command line tool has no tests",
  [BIN,U],[("contains check of all entries and fpp comparison",BIN+" Bench"),("fp_rate",U+" Stats")],["stdout and exit status of bench"])

p("C22","Python bindings agree with the library","Every operation of the Python module has the effect and result of the corresponding library operation: constructors, insert, contains, union, common count, fullness, getters, dumps/loads and save/load produce the same values and the same bytes, and files are interchangeable with the library and the command line tool. Invalid parameters, refused inserts or merges and malformed data raise ValueError, problems with files (also a full disk) OSError or ValueError, arguments of wrong types or ranges raise an ordinary exception; all of these leave the object unchanged and never panic or kill the interpreter.",
  ["histories","inputs"],"all sequences of Python calls on filters of both versions and all optimization levels with bytes and str values",
  "the Python bindings have no tests",
  [PY,L],[("pyo3 wrappers",PY)],["Python API, bytes of dumps/save"])
p("C23","Filters are independent values and looking at them changes nothing","An operation changes only the filter it is applied to, and no query (lookups, metadata, bit counts and bit vectors, comparison and common-entry estimates with another filter, complete or failing saves) changes any filter or its own answer when repeated. Clones, and filters loaded from the same file, start equal and never affect each other, and queries and saves from several threads at once give the sequential answers. Bit counts and the bit vector of a filter agree with the bits in its saved form.",
  ["histories","inputs","schedules"],"all histories over several filters, clones and loads, both formats and all optimization levels; any number of concurrent readers",
  "no test looks at a filter an operation was not applied to, at the same filter before and after a query, or uses a filter from two threads",
  [L,V1,V2,BA,BV],[("owned bit vectors, derived Clone",V1+", "+V2+" BloomFilter"),("queries take &self","contains_bytes, count_common_entries, write in "+L),("count_ones/count_zeros/bits",V1+", "+V2)],["write before and after every query and operation, on every filter; count_ones, count_zeros, bits"])

p("C24","Size, statistics and timing helpers are right","The public size type converts between bits, bytes and megabytes, compares, hashes and scales to its unit as the plain number of bytes does, whatever form it is in, saturating instead of overflowing. The statistics helper counts every observation and its false positive rate is false positives over all negatives. The timing helpers call the function exactly as often as asked, also for zero or one runs, and report a time between that of the shortest and the longest run.",
  ["inputs","configurations"],"all sizes of 64 bits, all sequences of observations, any number of runs",
  "the helpers have no tests of their own; other tests use them with one or two values",
  [U],[("ByteSize",U),("Stats",U),("benchmark, time_it_once",U)],["public API of poppy_filters::utils"])

p("C25","The bits depend only on the set of inserted values","Two filters with the same parameters that received the same set of values, with room for all of them, have the same bits: whatever the order, repetitions, interface or bulk size of the insertions, saves and loads in between, or the distribution over filters that are merged by union afterwards. Inserting never takes back a bit, and inserting everything again changes nothing.",
  ["histories","inputs","configurations"],"all sets of values, orders, repetitions, interfaces and partitions, both formats and all optimization levels, filters with room for the values",
  "no test compares two filters that were filled differently",
  [L,V1,V2,H,BA,BV],[("bits only ever set, position independent of state",V1+" insert_bytes, "+V2+" insert_iter"),("bulk insertion",L+" fill"),("bitwise or","union_merge in "+V1+", "+V2)],["bits in the serialized form"])

p("C26","CLI: updating a file keeps the rest of it, creating replaces all of it","`poppy insert` keeps version, capacity, probability, optimization level, geometry, attached data and all previous bits of the filter file, adds exactly the bits of the given entries, and with a single copy in memory (one job, or at most one file) writes the very file the library would write after the same insertions; without entries the file stays as it is. `poppy create` over an existing filter file leaves exactly the new filter and nothing of the old one.",
  ["inputs","configurations","histories"],"filter files of both formats and all levels, with any entries (inserted or merged) and attached data, also full ones; any division of the new entries over files, standard input and jobs",
  "the command line tool has no tests",
  [BIN,L,V1,V2],[("load, insert, write back",BIN+" Insert"),("copies and union per job",BIN+" parallel_insert"),("File::create truncates",BIN+" Create/Insert")],["bytes of the filter file before and after"])
p("C27","Filters take the space the theory prescribes and report it","The public size formula gives the number of bits n*|ln p|/ln2^2 an optimal filter needs (within one bit, growing with the capacity and with smaller probabilities); a v1 filter has exactly that many bits (at least one) and the matching number of hash functions, and a v2 filter has room for its capacity with at most one 4 KB bucket too many, plus at levels 2 and 3 an index cache of one to two bits per value and at level 2 at most twice the buckets. The sizes a filter reports in bits, words and bytes agree with each other and with its saved form. The estimated probability of a v1 filter is that of the formula for its current count and number of bits: between 0 and 1, and 0 when empty.",
  ["inputs","configurations"],"all capacities and valid probabilities, both formats and all optimization levels; v1 filters of any geometry and count",
  "tests look at the sizes of two or three filters and at no estimate",
  [BU,V1,V2,L],[("bit_size, k, estimate_p, cap_from_bit_size",BU),("geometry",V1+" with_capacity, "+V2+" make"),("size_in_bytes, size_in_u64, n_bits, estimated_p",V1+", "+V2)],["public getters, length of the saved form"])

p("C28","The filter type for either version does what the version-specific types do","Every operation of the version-independent filter type (insertion, bulk insertion, lookup, clear, union, comparison, common-entry estimate, metadata, saving and loading) has the result, the kind of error and the effect of the same operation on the version-specific filter inside it. Union and comparison of filters of different versions are refused with the merge error and change nothing. A stream is accepted by the reader for either version exactly when the reader of the version it announces accepts it, as the same filter, and the reader of the other version refuses it, naming the version found when the rest of the flags is valid.",
  ["histories","inputs"],"all histories over filters of equal and different parameters and versions; saved, shortened and modified streams",
  "tests use either the generic or the specific type, never both on the same input",
  [L,V1,V2],[("enum dispatch",L+" BloomFilter"),("flags and version dispatch",L+" from_reader, "+V1+" and "+V2+" _from_reader")],["results and serialized forms of both"])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['statement'].split('. '))<=3,(x['id'])
print(len(P))

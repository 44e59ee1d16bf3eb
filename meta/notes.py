NA = {}
N["C01"] = (PBT, "exploration", "random histories over bounded identifier spaces, four schema families, five option sets, real processes; not exhaustive")
N["C02"] = (PBT, "exploration", "random overwrite histories against a model of the masking order, all three list modes")
N["C15"] = ("property-based testing: grammar-generated schemas against an independent model of the schema language, metamorphic dump/parse and encode/decode relations, mutated texts", "exploration", "schemas of up to three database rules with all predicate kinds; database rules told apart by one keyword")
N["C03"] = (PBT, "exploration", "three typed schemas, spellings the types accept for listing and retrieval; ranges such as to/by are expanded before they reach the archive and are not part of it")
N["C16"] = ("property-based testing: per value type, generated spellings against an independent table of meanings, and archive/list/retrieve under random spellings", "exploration", "all value types of the schema language; spellings the eckit date and time library itself reads leniently are not judged")
N["C17"] = ("property-based testing: generated value objects, encode/decode round trip compared over the whole public interface, framing marker after each object", "exploration", "sixteen kinds of objects; counts and timestamps below 2^32 and 2^31 (eckit streams carry longs as 32 bits)")
N["C04"] = ("stateful property-based testing: generated interleavings of writers with new and long-open readers against a model of what has been flushed", "exploration", "interleavings at operation granularity (concurrent execution is C06)")
N["C05"] = ("property-based testing with fault injection: generated histories killed at the n-th modifying file operation, possibly inside a write, then read, written on and purged by new processes against the model", "exploration", "process death, with writes torn at page boundaries; not power failure (unsynced data stay in the page cache); one known finding")
N["C06"] = ("property-based testing: generated programs of concurrent processes and threads, linear bookkeeping of every flushed value against the full and the default listing", "exploration", "interleavings are those the operating system produces, not controlled; up to nine threads in three processes")
N["C07"] = ("stateful property-based testing: generated overwrite histories (several sessions, sub-TOCs, adopted data), then dry, confirmed and repeated purges checked against listings, bytes and directory trees", "exploration", "writers are closed before a purge; purging masked adopted data is refused by design and only checked to change nothing")
N["C08"] = ("stateful property-based testing: generated wipes between archive operations, oracle computed from the full listing and the request; metamorphic relation between the dry report and what the confirmed wipe removes", "exploration", "a non-empty foreign sub-directory under a forced wipe is outside the domain")
N["C09"] = ("model-based property testing: random lock/unlock sequences against a model of the enabled operations per database, every operation tried by new sessions", "exploration", "sessions that already hold a database open when it is locked are outside the domain; level-one listings and axes do not consult locks")
N["C10"] = ("model-based property testing: moves through the interface and the fdb-move tool, stopped after each phase, compared with the trees and listings before", "exploration", "one database per move; copying the data of a database while a writer is active is outside the domain")
N["C11"] = ("model-based property testing: random sequences of overlays, removals, hiding, reindexing and reconsolidation, by tools and interface, against a model of what each database shows", "exploration", "overlays of GRIB databases without cycles; reconsolidation for schemas without optional keywords; one known finding")
N["C12"] = ("property-based testing: reported axes against the values of the model's fields; random operation sequences on axis objects against a model of sets", "exploration", "when a request names field keywords, an index either contributes all its values or none: values of unselected fields of contributing indexes are allowed")
N["C13"] = ("property-based testing: statistics against independent counts from the model, the full listing and the directories, fdb-stats against the sums", "exploration", "sizes of index files and of the table of contents are not judged while sub-TOCs are open")
N["C14"] = ("property-based testing: compact listings expanded and compared with the plain listing; printed and JSON elements read back", "exploration", "values without the separators of the text form")
N["C19"] = ("model-based property testing: generated select configurations (lanes, expressions, excludes) against the union of the lanes that should see each request", "exploration", "local lanes in one process; expressions searched in the values as the code documents; lanes with disjoint content")
N["C20"] = ("model-based property testing: generated site configurations (spaces, roots, flags, policies, naming and expver files), changed between operations, against a model of where databases may be created and which are seen", "exploration", "lookups by key consult the first matching space only; two known findings")
N["C21"] = ("model-based property testing: generated read/seek/skip/rewind/re-open sequences on handles of generated field sets, against a byte-stream model", "exploration", "seeks beyond the end are outside the domain; one known finding (deduplicated reads of fields with different keywords)")
N["C30"] = ("stateful property-based testing: generated populations and generated read-only or unconfirmed calls (interface and tools), each followed by a comparison of every inode, time and content under the roots", "exploration", "access times are not compared; fdb-move has no dry mode and only its refusal without a destination is included")
N["C26"] = ("metamorphic property-based testing: generated histories written, purged and read under random combinations of twenty options, compared with one model that knows no options", "exploration", "combinations are sampled; index types with short keys only for short fingerprints; one known finding (BTreeIndex4MB)")
N["C22"] = ("model-based property testing: generated streams of GRIB messages through every archiving entry point, filters, modifiers, accompanying requests with generated faults, and fdb-copy, against a model of identifiers and messages", "exploration", "GRIB messages; filters and file requests with one class, experiment and type; copies with a non-empty selection")

N["C24"] = ("differential property-based testing: generated histories of two clients, with restarts, failing requests and concurrent queries, run operation by operation against catalogue and store servers on the loopback network and against a local archive", "exploration", "one machine; values without characters special in URIs; the schedules are those the operating system makes; after a refused archive no wipe is compared")
N["C23"] = ("model-based and differential property-based testing: generated programs of C calls, valid and invalid, against a model and the C++ interface, in a process whose end is a failure", "exploration", "invalid pointers other than null are outside the domain; one known finding (the duplicates flag of fdb_list)")

N["C18"] = ("fuzzing with sanitizers: structure-aware damage of generated tables of contents and encoded objects (truncation, bytes, header fields, integers, exchanged records, noise), read by every operation in address- and undefined-behaviour-sanitized processes, and an earlier-state oracle for truncation", "exploration", "tables of contents and encoded objects, not index or data files; enumerators out of range are not judged")

N["C27"] = ("model-based property testing: generated pairs of archives with generated differences, compared by fdb-compare in both directions under generated options, against a verdict derived from the identifiers, the octets of the messages and their decoded values", "exploration", "GRIB messages; requests that differ in class, experiment, date and time only; bitmaps and lengths that differ under key comparison are only checked for symmetry")

N["C28"] = ("model-based property testing: generated archives, requests, axis definitions and chunkings; every chunk of the view, plain and with sanitizers, and slices of zarr arrays over it against the values of the fields by their coordinates", "exploration", "GRIB fields with exactly representable values; where a field is ambiguous (held by two lanes, or lacking an optional keyword) any of the candidates or a refusal is accepted")

N["C29"] = ("differential property testing: generated histories, selections, configurations and reading programs through pyfdb, against the native interface with the canonical request on the same archive (modifications: on a copy) and against the archived bytes", "exploration", "one environment of the interpreter; identifiers hold canonical values; modifications are made while no other handle is open")
N["C25"] = ("differential property-based testing: generated histories on archives whose catalogue, store or both are in the emulated object store, run operation by operation against a file archive", "exploration", "the emulated object store, from one thread per process; one writer at a time; whether a field is found by a request naming an optional keyword it lacks is left open; new processes after a wipe; two known findings")

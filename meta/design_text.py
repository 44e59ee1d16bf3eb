import importlib.util as _u
_s = _u.spec_from_file_location("notes", os.path.join(here, "notes.py")); _src = open(os.path.join(here, "notes.py")).read()
_ns = {"PBT": PBT, "N": {}, "NA": {}}; exec(_src, _ns)
NOTE = {i: n[2] for i, n in _ns["N"].items()}
CAUGHT = {}
HEAD = """# DESIGN

This directory decides semantic properties of ecmwf/fdb (listed in `properties.jsonl`) by property-based
testing and fuzzing. Everything below is generated by `meta/design.py` from the properties, the notes, the
findings and the planted changes; the machinery itself is in `lib/`, `driver/`, `checks/`.

## How it works

* **Code under test.** `lib/build.sh` builds FDB from /repo's *current working tree* (through `cmake/CMakeLists.txt`,
  which takes /repo's sources and the installed ecbuild/eckit/metkit/eccodes) into a build directory of this sandbox; an
  unchanged tree is an incremental no-op, a changed file is recompiled. No check looks at how the code is written: they
  drive the library, its tools and its servers and judge what they return and what is on disk.
* **Drivers.** `driver/core.cc` (archive, flush, list, retrieve, wipe, purge, move, control, axes, statistics, dump, read handles, ...),
  `schema.cc` (schema language), `codec.cc` (encoded objects), `grib.cc` (message archiving), `capi.cc` (the C interface) and `crash.cc` (a
  preloaded layer that counts modifying file operations and kills the process at the n-th) are small C++ programs that execute one JSON operation per line.
  A driver is a process of its own: a crash, an abort or an answer that does not come (time limit) is a failure of the case.
* **Generators and models.** Each `checks/cNN.py` has a hypothesis strategy that generates *cases* (JSON values: histories,
  configurations, inputs, crash points), a reference model or relation that predicts results without using FDB, and `run(case)` that executes the case in a scratch
  directory of its own (`/dev/shm/vfdb-*`, removed afterwards) and raises a violation when they differ. `lib/world.py` holds what is common: schema families,
  identifiers with optional keywords and branches, the model of a history (per identifier the sequence of flushed contents, timestamps, levels), writers and readers in several processes.
* **Search.** `lib/vf.py` runs the generator in up to eight worker processes with seeds derived from VERIF_SEED, to the number of cases given by quick or thorough
  (and a time limit well below the 900 s of a check). A failure is shrunk by hypothesis to a minimal case, replayed in new processes to
  confirm it (checks marked non-deterministic replay several times and report what failed), and written as the replay file; `checks/cNN.py --replay FILE` runs it again.
* **Evidence.** Every run rewrites `evidence/<id>.json`: cases generated, distinct non-trivial cases by the stated rule, labels (what was exercised, how often), samples, the seed and the time.
* **Exit.** 0: every case agreed (or failed only in a listed known finding, which prints KNOWN-FINDING); 1: `VIOLATION property=<id> replay=<file>`.
  Failures of the machinery itself (build, harness) are neither: they exit 2 and are never reported as a violation. Known findings are matched by a signature the check attaches
  where it recognises exactly that defect, and each has a case in `known_findings.json` that is replayed on every run.
* **Why this reaches what the tests cannot.** The tests of the repository run a few fixed scenarios each; the properties are about every history, input, configuration, crash point or schedule.
  The generators produce thousands of small, unlike ones per run (optional keywords absent and present, empty values, several writers, reopened handles, odd values, records around
  buffer and record sizes) and the oracles say for each of them what must be observed.
* **Containment.** All paths given to FDB are inside the scratch directory; HOME and FDB_HOME point there; servers listen on the loopback network on free ports and are killed with their process group.

## Limits of the technique here

Schedules are those the operating system makes (with generated programs and delays, C06, C24): they are sampled, not enumerated. Crash points (C05) are enumerated operation by operation
but machine crashes (loss of unsynced pages) cannot be produced without privileges. Damage (C18) is sampled. All verdicts are "held on everything explored".

"""
def D(i, o, b, f=""): T[i] = (o, b, f)
D("C01", "The model keeps, per identifier, the contents in flush order; a retrieval of one or many identifiers must give exactly the latest of each, concatenated in some order of whole fields.", "Sessions, overwrites, several databases and indexes, optional keywords at every level, one to five option sets, payload sizes from 1 byte to beyond the buffers.")
D("C02", "The default listing must be one element per visible identifier with the model's bytes; full = default + duplicates as multisets with locations; inspect equals the list element; truncated listings lie between the truncations of the selected fields and all entries that do not contradict the request; timestamps lie inside the archive call.", "Overwrites by two writers with interleaved flushes, sub-TOCs and sessions.", "The order of elements in a listing is not judged.")
D("C03", "An independent table of value meanings per type (canonical forms) decides which stored identifiers a request selects.", "Random partial, multi-valued, misspelt, empty and unknown values over typed schemas.", "Values that are invalid for their type select nothing; ranges (to/by) belong to the request language and are outside.")
D("C04", "After each flush every new reader must see exactly the model's visible fields; readers opened before must return bytes that were visible at some time since their opening.", "Interleavings of writers, sessions and long-open readers.")
D("C05", "After the kill: every field flushed before is listed and retrieved with its bytes, others only with bytes archived under them; the databases stay listable, writable, purgeable.", "Every modifying system call of a history is a possible kill point; torn writes at page boundaries.")
D("C06", "Every (identifier, content) flushed by any process or thread must appear exactly once in the full listing; the default listing shows one of the last contents of each identifier.", "Generated programs for up to nine threads in three processes creating the same databases.", "Corrected: the consolidation at close may mask in either order of overlapping writers (the model only claims the set of last contents).")
D("C07", "The default listing (keys, bytes) is the same before and after; the full listing has no duplicates left in the purged databases; the dry run changes nothing and announces what the confirmed purge removes; a second purge has nothing to do.", "Data shared by several indexes, sub-TOCs, adopted and overlaid data, purges by partial requests.", "Corrected: payloads are unique per archive so that equal bytes cannot be confused.")
D("C08", "The fields that survive are exactly those whose databases or indexes the request does not select (from the model), with their bytes; nothing of a wiped database remains; dry runs change no file; reported URIs are those removed.", "Wipes at database, index and field depth between archive sessions, foreign files, locks, several roots.", "Corrected: wiping a database locked for wiping is refused (the commit that allowed it was undone).")
D("C09", "A table of identifiers x databases: each operation succeeds exactly when its identifier is enabled in the databases it touches and is refused or returns nothing otherwise; status and enabled agree with it.", "Random lock/unlock sequences by requests that select several databases.")
D("C10", "At every stage the union of the two places holds the complete listing and bytes; after cleaning exactly the destination; a refused move leaves no trace.", "Stops after each phase, failures injected by foreign files, destinations in and outside the configuration.", "Corrected: the tool refuses requests that match several databases; its parallel copy and its exit were raced by the check itself.")
D("C11", "A model of mounts (which database shows which fields under which keys) predicts listings, retrievals and the messages' metadata after each operation.", "Sequences of overlay, removal, hide, reindex, reconsolidate, wipe and purge.", "Corrected: requests without an optional database keyword select more than one database; purges by over-specified requests are user errors.")
D("C12", "Axes of a level must contain every value of a selected field and only values of fields in contributing indexes.", "Partial requests, several databases, axis objects driven by operation sequences.", "Corrected: databases whose fields have not been flushed may contribute their key.")
D("C13", "Counts and sizes from the model (visible, superseded) and from directory trees.", "Overwrites, sub-TOCs, indexes shared by sessions.")
D("C14", "Expanding the compact form, or reading back the text and JSON forms, must give exactly the plain listing.", "Sparse populations in which optional keywords come and go.")
D("C15", "An independent parser and matcher of the schema language predict rule, levels and canonical values; dump and encode round trips must not change them; mutated texts are refused or parse to what the model says.", "Generated grammars with every predicate and type.", "")
D("C16", "An independent table of types maps each spelling to its meaning or to 'invalid'; equal meanings must be one key, different ones different keys.", "Generated spellings per type, through archive, list and retrieve.", "Corrected: spellings that the eckit date and time classes read leniently are left open.")
D("C17", "decode(encode(x)) equals x over the whole public interface, consumes exactly its bytes, and encodes to the same bytes again.", "Sixteen kinds of values with empty, long and odd contents.", "Corrected: eckit streams carry longs as 32 bits; empty axes are normalised.")
D("C18", "The process must end every operation with an answer or an exception (address and undefined-behaviour sanitizers, 60 s limit); after a truncation, the identifiers, their bytes and the minimal content follow from the states recorded when the table had each length.", "Damage of every kind to records, headers and encoded integers; tables that refer to themselves; encoded objects of thirteen kinds cut and changed in 40 ways each.", "Corrected: allocations beyond 256 MiB fail by exception (as without sanitizer, with less memory); enumerators out of range are not judged; absurd time stamps are not printed (eckit aborts); one-byte fields may repeat; a request also selects fields without some of its keywords.")
D("C19", "Lanes are modelled as separate archives; an archive call goes to the first lane that accepts, a query sees the union of the lanes it can match.", "Generated lanes with expressions, excludes and optional keywords.", "Corrected: expressions are searched, not anchored; excludes on optional keywords that the field does not have do not exclude.")
D("C20", "A model of spaces, roots, flags, handlers and naming tables says where a database may be created and from where it is read, phase by phase while the configuration changes.", "Configurations in YAML and in the older files, with expver maps and dbnames.", "Corrected: dbnames expressions are unanchored; wipes over several roots; expver maps that lead outside the spaces.")
D("C21", "A byte-stream model per handle: reads, seeks, skips, sizes and re-openings give what a file with these bytes would.", "Handles over mixtures of adjacent, separate, repeated and overlaid fields, sorted and unsorted, seekable and not, with de-duplication.", "Corrected: sorted handles deliver fields in storage order; fields in any order are accepted where the interface promises none.")
D("C22", "The identifiers and messages that must be stored are computed from the generated messages; each entry point must store exactly these or refuse without storing others.", "Streams with garbage between messages, filters, modifiers, requests that name too much or too little, fdb-copy.", "Corrected: copying nothing is an error; domain is a derived keyword; class, expver and type of file requests have one value.")
D("C23", "The model of a history predicts listings, bytes and stream positions; the C++ interface in another process must agree; every invalid call must return the general error code with a message, call the failure handler once, and leave the process usable.", "Programs of up to 60 calls over two handles.", "Corrected: optional keywords that are absent may be listed with an empty value; the locks a confirmed wipe takes are not compared; a handle that has retrieved from a database goes on seeing it as it was (C04).")
D("C24", "The same history on a local archive: all results (elements, bytes, axes, statistics, success or failure) must be equal after every operation, on clients that live on through errors and server restarts.", "Threaded and forking servers, one or two stores, a local catalogue with remote stores (its fields get into the indexes on another thread than the one that archives), fields beyond the message buffers, concurrent queries in one client, refused and repeated wipes.", "Corrected: ports are taken outside the range of client ports; values with URI characters are outside; after a refused local archive (which leaves an index file that a wipe does not know) wipes are not compared, nor are they with a local catalogue and remote stores, which wipe only what a catalogue server has signed.")
D("C25", "The same history on a file archive: elements with keys and bytes, inspected lengths, retrieved bytes, axes, success or failure must be equal after every operation.", "Catalogue, store or both in the object store; two clients in one or two processes, in which many archives (pools) are used one after another; overwrites, requests over several indexes, fields with and without optional keywords, dry and confirmed wipes at both levels and archiving after them.", "Corrected: concurrent queries were left out (the emulation of the object store keeps lists of pending answers that threads share); axes and listings by index are compared without optional field keywords in the request; overwritten fields are replaced, not masked, so only deduplicated listings are compared.")
D("C26", "One model that knows no options predicts every listing and retrieval; writers and readers each draw their own options.", "Twenty options, alone and combined, changing between sessions on the same databases.")
D("C27", "The verdict follows from the two sets of identifiers after requests and exclusions, from the octets of the messages (sections walked by the GRIB regulations) and from their decoded values; the other direction must give the same verdict.", "Both editions, with and without local section and bitmap, two packings, overwritten fields, all scopes, methods and tolerances, keys ignored and selected.", "Corrected: bitmap presence, number of points and lengths of messages under key comparison are only checked for symmetry.")
D("C28", "The coordinates of a position (row-major over the keywords of each axis, parts one after another along the extension axis) name one field; its values, missing ones replaced, must be there in every chunk and slice that is given, and a chunk is given exactly if all its fields exist. Malformed definitions, indices and buffers must be refused.", "One to three parts, any combination of keywords in axes, whole, single and fixed chunks, spellings and ranges; missing, resized, ambiguous, multi-message and duplicated fields; sanitized builds; the zarr store.", "Corrected: parameter short names depend on the level type.")
D("C29", "The native answer to the canonical request on the same archive: elements with keys, locations and lengths, axes, reports, states, refusals; for data handles the bytes as a stream that is opened, read and closed at will; for wipe, purge and control the native operation on a copy of the archive, whose files must be equal afterwards.", "Selections as scalars, lists, tuples, sets, views, ranges and spellings; archives written through Python by identifiers, GRIB messages and context managers; configurations as dictionaries, text, files and from the environment; buffers that are scattered, read-only or of wider items; handles that outlive their FDB; abandoned listings; threads.", "Corrected: the order of retrieved fields is free; Python names the disabled functions of a database, the native element answers which are enabled; only one writer at a time with sub-TOCs.")
D("C30", "Inodes, times, sizes and contents of everything under the roots are equal before and after.", "All read-only operations and dry runs of interface and tools over populations with locks, overlays, sub-TOCs and foreign files.", "Corrected: fdb-move locks its source also when it fails later; only its refusals are included.")

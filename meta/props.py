#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 meta/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Retrieving an archived field returns exactly the last flushed bytes",
 "After any history of archive, flush, close and reopen operations, retrieving a fully specified field identifier returns exactly the bytes most recently archived and flushed under that identifier, whatever other fields, databases, indexes or writers were involved. An identifier that was never archived yields no data and never the data of another identifier. Multi-valued requests return the concatenation of exactly the matching fields, each once. (Values are free of ':' and '/', apart from quantiles, and do not start with '~'; values are held in lower case.)",
 ["histories", "inputs"], "all sequences of archive/flush/close/reopen over all identifiers the schema admits and all field sizes (including empty-sized optional keys, overwrites, several indexes and databases)",
 "Tests archive a handful of fixed fields once and read them back; they do not explore overwrites across sessions, mixed indexes, or arbitrary identifiers and sizes.",
 ["src/fdb5/api/FDB.cc","src/fdb5/api/local/","src/fdb5/database/","src/fdb5/toc/","src/fdb5/rules/Rule.cc","src/fdb5/io/"],
 [("archive path expands the identifier through the schema into db/index/datum keys and stores the location","src/fdb5/database/Archiver.cc, src/fdb5/database/ArchiveVisitor.cc, src/fdb5/rules/Rule.cc"),
  ("index flush appended to the TOC, newest index consulted first on retrieve","src/fdb5/toc/TocCatalogueWriter.cc, src/fdb5/toc/TocCatalogueReader.cc, src/fdb5/toc/TocHandler.cc"),
  ("field payload appended to a per-writer data file and addressed by offset/length","src/fdb5/toc/TocStore.cc, src/fdb5/toc/TocFieldLocation.cc")],
 observe=["FDB::retrieve","FDB::inspect","FDB::read"])

prop("C02", "Listing reports each stored field exactly once, with its current location",
 "After any history of archives, overwrites and flushes, the default listing of a database reports each stored identifier exactly once, with the location and length of its most recent value, and nothing else. The full listing additionally reports every masked older copy exactly once, and the duplicates-only listing reports exactly those identifiers' superseded copies that the full listing has and the default one has not. Reading any listed location returns the bytes archived there, and an element's timestamp and length agree with the archive that created it.",
 ["histories", "inputs"], "all histories of archive/overwrite/flush/reopen and all list modes and depths",
 "Tests list a few fixed fields after one or two archives; masking order over arbitrary multi-session overwrite histories and the three list modes is not explored.",
 ["src/fdb5/api/helpers/ListIterator.h","src/fdb5/api/helpers/ListIterator.cc","src/fdb5/api/helpers/ListElement.cc","src/fdb5/api/local/ListVisitor.h","src/fdb5/database/KeyStore.h","src/fdb5/toc/TocHandler.cc"],
 [("indexes visited newest first, first occurrence wins","src/fdb5/api/helpers/ListIterator.cc, src/fdb5/database/KeyStore.h"),
  ("three-level visit of databases, indexes and entries","src/fdb5/api/local/ListVisitor.h, src/fdb5/database/EntryVisitMechanism.cc")],
 observe=["FDB::list","FDB::inspect"])

prop("C03", "A request selects exactly the fields whose identifiers match it",
 "For any selection request, listing and inspecting return exactly the stored fields whose identifier has, for each keyword the request names, a value the request allows, where values are compared in canonical form. This holds however many values each keyword has, in whatever order or spelling that the value's type makes equivalent, and whether the keyword belongs to the database, index or field level or is an optional keyword. The number of levels asked for only truncates the reported identifiers. (Listing accepts any part of the keywords; inspecting and retrieving need the keywords of one rule, other keywords being ignored. A value that is not valid for its keyword selects nothing. Ranges such as to/by are expanded by the request language, before the archive sees them.)",
 ["inputs", "programs"], "all selection requests (partial, multi-valued, empty, non-canonical spellings, unknown values) against all stored populations",
 "Tests use a few hand-written requests on a regular hypercube of data.",
 ["src/fdb5/api/local/ListVisitor.h","src/fdb5/rules/Rule.cc","src/fdb5/rules/Schema.cc","src/fdb5/types/","src/fdb5/toc/TocEngine.cc","src/fdb5/database/IndexAxis.cc","src/fdb5/database/InspectionKey.cc"],
 [("request expanded against rules and matched against db, index and datum keys","src/fdb5/rules/Rule.cc, src/fdb5/database/Key.cc"),
  ("database directories found by regular expression over names","src/fdb5/toc/TocEngine.cc, src/fdb5/toc/RootManager.cc"),
  ("axes used to prune indexes","src/fdb5/database/IndexAxis.cc, src/fdb5/toc/TocIndex.cc")],
 observe=["FDB::list","FDB::inspect","FDB::retrieve"])

prop("C04", "Data becomes visible to other readers only at flush, and all of it then",
 "A reader that opens the database after a flush returned sees every field archived before that flush with its newest value; a field archived since the last flush is not visible to any other reader. A reader that was opened earlier keeps returning correct bytes for what it already saw.",
 ["histories", "schedules"], "all interleavings of archive/flush in one or several writers with opens and reads in readers",
 "Tests always flush before they read and use a single reader opened afterwards.",
 ["src/fdb5/database/Archiver.cc","src/fdb5/toc/TocCatalogueWriter.cc","src/fdb5/toc/TocStore.cc","src/fdb5/toc/TocIndex.cc"],
 [("store flushed before catalogue, index written before its TOC record","src/fdb5/database/Archiver.cc, src/fdb5/toc/TocCatalogueWriter.cc")],
 observe=["FDB::flush","FDB::list","FDB::retrieve"])

prop("C05", "A writer killed at any instant never corrupts the archive",
 "If a writing process dies at any instant (writes being torn at page boundaries at most; the machine itself keeps running), every field whose flush had returned before is still listed and retrieved with its exact bytes, and every field visible afterwards has bytes that were archived under that identifier. Readers do not fail on what the dead writer left behind, and new writers can continue to archive, flush and read back in the same database.",
 ["crash_points", "histories"], "every point between two file-system operations of the writer (including partially completed writes), for all archive/flush/purge/wipe histories generated",
 "No test kills a writer; the ordering of data, index and TOC writes is only observable at crash points.",
 ["src/fdb5/toc/TocHandler.cc","src/fdb5/toc/TocCatalogueWriter.cc","src/fdb5/toc/TocStore.cc","src/fdb5/toc/TocIndex.cc","src/fdb5/database/Archiver.cc"],
 [("TOC records appended with a single O_APPEND write after data and index are flushed","src/fdb5/toc/TocHandler.cc"),
  ("database initialisation under a race/crash-tolerant protocol","src/fdb5/toc/TocHandler.cc, src/fdb5/toc/TocCatalogueWriter.cc")],
 observe=["on-disk state after the kill, read by a fresh process"])

prop("C06", "Concurrent writers never lose or mix each other's fields",
 "When several processes or threads archive and flush into the same databases at the same time, every flushed field is afterwards listed and retrieved with exactly the bytes one of its writers archived, and no field is lost or attributed to another identifier.",
 ["schedules", "histories"], "all interleavings of concurrent writers (processes, threads) creating and appending to the same databases",
 "The two concurrency tests run one fixed workload; database creation races and mixed identifiers are not varied.",
 ["src/fdb5/toc/TocHandler.cc","src/fdb5/toc/TocCatalogueWriter.cc","src/fdb5/toc/TocStore.cc","src/fdb5/database/Archiver.cc","src/fdb5/database/DatabaseNotFoundException.h"],
 [("unique data and index file names per writer, atomic TOC creation and O_APPEND records","src/fdb5/toc/TocHandler.cc, src/fdb5/toc/TocStore.cc")],
 observe=["FDB::list","FDB::retrieve"])

prop("C07", "Purge removes only superseded data and never changes what is visible",
 "Purging, with no writer active, leaves the default listing and all retrievable bytes unchanged, and afterwards the full listing shows no superseded copy that belongs to an index all of whose fields were superseded. It removes only files in which no visible field lives, and removes all such data files of the selected databases. Without the confirmation flag it changes nothing on disk. (Purging superseded adopted data, whose files belong to another database, is refused and changes nothing.)",
 ["histories", "inputs"], "all overwrite histories (including partially masked indexes, several databases, adopted data, sub-TOCs) and all purge requests",
 "Tests purge one or two fixed overwrite patterns.",
 ["src/fdb5/toc/TocPurgeVisitor.cc","src/fdb5/toc/TocStats.cc","src/fdb5/database/PurgeVisitor.h","src/fdb5/api/local/PurgeVisitor.cc","src/fdb5/toc/TocHandler.cc"],
 [("usage counting per data/index file, clear records for obsolete indexes","src/fdb5/toc/TocPurgeVisitor.cc, src/fdb5/toc/TocStats.cc")],
 observe=["FDB::purge","FDB::list","directory contents"])

prop("C08", "Wipe deletes exactly the selected data",
 "A confirmed wipe makes exactly the fields of the databases and indexes selected by the request disappear and leaves every other field listed and retrievable with its exact bytes. When a whole database is selected, its directory disappears unless it contains files that are not the archive's, in which case nothing is removed unless explicitly forced; files outside the selected database are never touched. Without confirmation a wipe changes nothing, and what it reports is what a confirmed wipe then removes. A wipe that meets a database locked for wiping is refused as a whole.",
 ["histories", "inputs"], "all populations and wipe requests (database, index level, unspecific, over-specific), dry or confirmed, with foreign files",
 "Tests wipe fixed populations with a few requests.",
 ["src/fdb5/api/local/WipeVisitor.cc","src/fdb5/database/WipeState.cc","src/fdb5/toc/TocCatalogue.cc","src/fdb5/toc/TocStore.cc","src/fdb5/toc/TocWipeVisitor.h"],
 [("URIs classified as to-be-wiped or safe before deletion","src/fdb5/database/WipeState.cc, src/fdb5/toc/TocCatalogue.cc"),
  ("selected indexes masked before their files are removed","src/fdb5/toc/TocCatalogue.cc")],
 observe=["FDB::wipe","FDB::list","directory contents"])

prop("C09", "Locks refuse exactly the locked operations, persistently",
 "After disabling listing, retrieval, archiving or wiping on a database, exactly the disabled operations are refused or skipped for that database in every process, all others work as before, and no data changes; enabling restores them. Only databases the control request selects are affected, and the reported status always equals the effect of the control operations so far. (Sessions opened after the control operation are meant: a writer that holds the database open goes on. A wipe that meets a database locked for wiping is refused as a whole. Listings of databases only, and axes, do not consult the locks.)",
 ["histories", "inputs"], "all sequences of enable/disable over all subsets of operations and all databases, interleaved with the operations themselves",
 "Tests lock one database with a few combinations.",
 ["src/fdb5/api/local/ControlVisitor.cc","src/fdb5/api/helpers/ControlIterator.h","src/fdb5/toc/TocCatalogue.cc","src/fdb5/toc/TocCommon.cc","src/fdb5/api/local/StatusVisitor.h","src/fdb5/api/helpers/Callback.h"],
 [("lock marker files in the database directory consulted on each operation","src/fdb5/toc/TocCatalogue.cc, src/fdb5/database/Catalogue.cc")],
 observe=["FDB::control","FDB::status","FDB::list","FDB::retrieve","FDB::archive","FDB::wipe"])

prop("C10", "Moving a database preserves all of its content",
 "Moving a database to another root leaves exactly the same listed identifiers and bytes reachable, the source location is empty afterwards, other databases are untouched, and a move that is refused changes nothing. (One database per move, with no writer active. The destination must be a configured root that allows wiping and does not hold the database yet.)",
 ["histories", "configurations"], "all populations (overwrites, sub-TOCs, locks, auxiliary files) and all move requests",
 "Tests move and copy one fixed small database.",
 ["src/fdb5/toc/TocMoveVisitor.cc","src/fdb5/api/local/MoveVisitor.cc","src/fdb5/api/helpers/MoveIterator.h","src/fdb5/tools/fdb-move.cc","src/fdb5/toc/FileSpace.cc"],
 [("source locked, files copied with the TOC last, then source removed","src/fdb5/toc/TocMoveVisitor.cc")],
 observe=["FDB::move","fdb-move","FDB::list"])

prop("C11", "Overlay, hide, reindex and reconsolidate expose the intended view of data",
 "Overlaying one database on another makes the fields of the source retrievable under the target's identifiers, taking precedence over what the target held at that moment, without copying data; the overlay is a live link, so later changes of the source show through it, and removing the overlay restores the previous view. Hiding a database makes it empty until new data is archived; re-indexing exposes the source fields with identical identifiers and bytes; reconsolidating or otherwise rewriting metadata never changes what is visible.",
 ["histories"], "all sequences of archive, overlay (on and off), hide, reindex and reconsolidate",
 "Tests overlay, reindex or hide one fixed pair of databases once.",
 ["src/fdb5/tools/fdb-overlay.cc","src/fdb5/tools/fdb-hide.cc","src/fdb5/tools/fdb-reindex.cc","src/fdb5/tools/fdb-reconsolidate-toc.cc","src/fdb5/toc/TocCatalogueWriter.cc","src/fdb5/toc/TocHandler.cc","src/fdb5/toc/AdoptVisitor.cc"],
 [("sub-TOC records with key remapping, clear records","src/fdb5/toc/TocHandler.cc, src/fdb5/toc/TocCatalogueWriter.cc")],
 observe=["fdb tools","FDB::list","FDB::retrieve"])

prop("C12", "Axes report exactly the values present",
 "For any request and depth, the reported axes contain, for every keyword of the levels examined, exactly the values that occur in the matching databases, indexes and fields of those levels, each once; nothing that was never archived is reported and nothing present is missing. (An index that holds a matching field contributes all values of its field keywords. A database counts as present from its first archive on.) Encoding axes, merging and comparing them never gains or loses a value.",
 ["inputs", "histories"], "all populations, requests and depths; all sets of keys inserted into an axis",
 "Tests check axes on one regular data set.",
 ["src/fdb5/database/IndexAxis.cc","src/fdb5/api/local/AxesVisitor.cc","src/fdb5/api/helpers/AxesIterator.cc"],
 [("per-index axis sets maintained at archive time and merged over indexes","src/fdb5/database/IndexAxis.cc, src/fdb5/api/local/AxesVisitor.cc")],
 observe=["FDB::axes","IndexAxis"])

prop("C13", "Reported statistics equal the true content",
 "The statistics of a database equal what can be counted independently: number and total size of all fields, of superseded duplicates, and of the files in use. ",
 ["histories", "inputs"], "all populations and histories",
 "Tests do not compare statistics with an independent count.",
 ["src/fdb5/toc/TocStats.cc","src/fdb5/api/local/StatsVisitor.cc","src/fdb5/database/Report.cc","src/fdb5/database/IndexStats.cc","src/fdb5/database/DbStats.cc"],
 [("visitor counts fields and duplicates per index and sums over databases","src/fdb5/toc/TocStats.cc")],
 observe=["FDB::stats"])

prop("C14", "Compact listings expand to exactly the listed fields",
 "The compact form of a listing is a set of requests whose expansions together name each listed field exactly once and nothing that is not listed, and its field count and total size equal those of the plain listing. Printing elements as text or JSON and reading them back gives the same elements. (Values are free of the separators ',', '=' and '/' of the text form.)",
 ["inputs"], "all populations, including irregular (non-hypercube) ones, and all list requests",
 "Tests compare one fixed compact output.",
 ["src/fdb5/api/helpers/ListIterator.cc","src/fdb5/tools/fdb-list.cc"],
 [("greedy merging of keys into hypercubes","src/fdb5/api/helpers/ListIterator.cc")],
 observe=["ListIterator::dumpCompact","fdb-list --compact"])

prop("C15", "Schemas mean what they say and survive printing and transmission",
 "For every schema text in the schema language, an identifier is mapped to database, index and field identifiers exactly as the first applicable rule says (alternatives, exclusions, wildcards, optional and default values, nested rules), and identifiers no rule admits are refused. Printing, re-parsing, encoding or decoding a schema does not change any of these answers, and malformed schema text is refused with an error rather than accepted or crashing.",
 ["programs", "inputs"], "all schema texts of the grammar and all identifiers; arbitrary malformed texts",
 "Tests parse a few fixed schemas.",
 ["src/fdb5/rules/SchemaParser.cc","src/fdb5/rules/Rule.cc","src/fdb5/rules/Schema.cc","src/fdb5/rules/Predicate.cc","src/fdb5/rules/Matcher.cc","src/fdb5/rules/MatchAny.cc","src/fdb5/rules/ExcludeAll.cc","src/fdb5/rules/MatchOptional.cc"],
 [("recursive-descent parser and rule expansion","src/fdb5/rules/SchemaParser.cc, src/fdb5/rules/Rule.cc")],
 observe=["Schema::expandDatabase/Index/Datum","Schema::dump","stream encoding"])

prop("C16", "Equivalent value spellings denote the same field; distinct values stay distinct",
 "For every value type, canonical form is idempotent, all spellings the type documents as equivalent have the same canonical form, and spellings with different meaning have different ones, so data archived under one spelling is found by any equivalent one and never under a different value. Values that are not valid for a type are refused rather than silently mapped to another value. (Not judged: unusual spellings of dates and times that the eckit library itself reads leniently.)",
 ["inputs"], "all values of every type (dates, times, steps and ranges, durations, doubles, integers, parameters, ensemble versions, months, lists, expressions such as relative dates and ranges)",
 "Tests check a handful of values for each type.",
 ["src/fdb5/types/"],
 [("per-type canonicalisation and request matching","src/fdb5/types/Type*.cc")],
 observe=["TypesRegistry, Type::toKey/tidy/match, FDB::archive/retrieve"])

prop("C17", "Encoding then decoding any value object is the identity",
 "Every object the system writes to disk or sends over the network (identifiers, axes, field locations, list elements, requests, indexes, control flags, wipe reports and configurations) is equal, in all observable respects, to what is read back, in every supported format version. What older format versions cannot express is the only permitted loss. (Counts are below 2^32 and timestamps below 2^31.)",
 ["inputs"], "all objects of each serialisable type with arbitrary contents (empty values, unusual characters, many values), and all supported versions",
 "Tests round-trip one or two fixed objects of some types.",
 ["src/fdb5/database/BaseKey.cc","src/fdb5/database/IndexAxis.cc","src/fdb5/database/FieldLocation.cc","src/fdb5/toc/TocFieldLocation.cc","src/fdb5/api/helpers/ListElement.cc","src/fdb5/database/WipeState.cc","src/fdb5/toc/TocSerialisationVersion.cc","src/fdb5/toc/TocIndex.cc"],
 [("symmetric encode/decode pairs","per class")],
 observe=["encode/decode through memory streams"])

prop("C18", "Damaged metadata is reported or skipped, never misread or crashing",
 "Whatever bytes are found in a database's table of contents (or the tables it refers to) or in an encoded object, reading ends with an answer or a clean error: no crash, no hang, no access outside the buffers. Truncating the table of contents at any byte yields the content of an earlier state, or a clean error, and never a field with bytes other than those archived under it. (Damage to index files and data files, and times so large that they cannot be printed, are outside.)",
 ["inputs", "fault_sequences"], "all truncations and byte corruptions of the metadata files and encoded messages",
 "No test feeds damaged metadata.",
 ["src/fdb5/toc/TocHandler.cc","src/fdb5/toc/TocRecord.cc","src/fdb5/toc/TocIndex.cc","src/fdb5/rules/SchemaParser.cc","src/fdb5/database/"],
 [("record header validation and short-read handling","src/fdb5/toc/TocHandler.cc")],
 observe=["FDB::list, FDB::retrieve on damaged copies"])

prop("C19", "A selecting archive behaves as its lanes dictate",
 "A selecting archive (type: select) sends each field to the first lane whose selection it satisfies and refuses a field no lane accepts; queries over it return the union of the lanes a request can match. A lane's selection is a set of keywords with regular expressions that are searched in the values; a lane that excludes an identifier never sees it. (Lanes are local archives with disjoint content.)",
 ["configurations", "inputs", "histories"], "all lane configurations, identifiers and requests",
 "Tests use one or two fixed configurations.",
 ["src/fdb5/api/SelectFDB.cc","src/fdb5/api/FDBFactory.cc"],
 [("regular-expression selectors per lane, aggregate iterators","src/fdb5/api/SelectFDB.cc")],
 observe=["FDB::archive","FDB::list","FDB::retrieve"])

prop("C20", "Fields are stored under the configured root and stay findable",
 "For every configuration of spaces and roots, a new database is created under a root of the first space whose pattern matches, chosen by that space's policy among writable roots, an existing database keeps being used where it is, and data is found whichever visitable root holds it. Roots not enabled for an operation are never used for it (wiping excepted), and no path outside the configured roots is ever written. Site naming files (dbnames), expver maps and space or root tables in either the configuration or the older file formats are obeyed. (Only the first space that matches a whole identifier is consulted for it, and databases held by several roots are an error for operations that need one.)",
 ["configurations", "histories"], "all space/root configurations and identifiers (including values with unusual characters)",
 "Tests use one or two roots with a single space.",
 ["src/fdb5/toc/RootManager.cc","src/fdb5/toc/FileSpace.cc","src/fdb5/toc/FileSpaceHandler.cc","src/fdb5/toc/ExpverFileSpaceHandler.cc","src/fdb5/toc/Root.cc","src/fdb5/toc/TocEngine.cc"],
 [("space selection by regular expression, policy handlers, existing database preference","src/fdb5/toc/RootManager.cc, src/fdb5/toc/FileSpace.cc")],
 observe=["directory contents","FDB::list"])

prop("C21", "Field handles behave as one contiguous read-only byte stream",
 "A handle returned for any set of fields reads, in any pattern of read sizes, seeks, skips and rewinds, exactly the concatenation of the fields' bytes, with position, size and estimate consistent, whether or not the fields are adjacent, repeated or in several files, and whatever merging or buffering is configured. (Seeks stay within the stream. A handle whose fields are sorted by location gives a repeated field once.)",
 ["inputs", "histories"], "all sets of fields and all sequences of read/seek/skip/rewind operations",
 "Tests read handles sequentially to the end.",
 ["src/fdb5/io/FieldHandle.cc","src/fdb5/io/HandleGatherer.cc","src/fdb5/database/FieldLocation.cc","src/fdb5/toc/TocFieldLocation.cc","src/fdb5/api/FDB.cc","src/fdb5/io/SingleGribMungePartFileHandle.cc"],
 [("handle gathering and merging, length-based position tracking","src/fdb5/io/FieldHandle.cc, src/fdb5/io/HandleGatherer.cc")],
 observe=["eckit::DataHandle returned by FDB::read/retrieve"])

prop("C22", "Archiving messages against a request accepts exactly that request",
 "Archiving a stream of messages stores each message, bytes unchanged, under the identifier its own header gives, in order, so that it is retrievable as such. When a request accompanies the messages, success means the messages are exactly the fields of the request, each once; a message outside the request, a second or a missing one is an error. Filters (include, exclude) archive exactly the messages they admit, modifiers archive each message changed as they say under the identifier its changed header gives, and copying messages from one archive to another (fdb-copy) makes exactly the selected fields available in the target, leaving the source unchanged. (GRIB messages; a copy selects at least one field.)",
 ["inputs"], "all message sequences (including duplicates, missing and extra fields, optional modifiers) and accompanying requests",
 "Tests archive fixed GRIB files with a few requests.",
 ["src/fdb5/message/MessageArchiver.cc","src/fdb5/message/MessageDecoder.cc","src/fdb5/message/MessageIndexer.cc","src/fdb5/api/FDB.cc","src/fdb5/tools/fdb-write.cc","src/fdb5/tools/fdb-copy.cc"],
 [("hypercube ticked off per message, key check","src/fdb5/api/FDB.cc, src/fdb5/message/")],
 observe=["FDB::archive(handle)","FDB::archive(request, handle)","fdb-write","fdb-copy"])

prop("C23", "The C interface agrees with the C++ interface and never lets errors escape",
 "Every C call returns an error code, never an escaping exception or crash, for any valid or invalid sequence of arguments, and reports a message for the last error. Listing, retrieving, archiving, flushing and querying through it give exactly the results of the C++ interface.",
 ["programs", "inputs"], "all sequences of C API calls with valid, null or invalid arguments",
 "The C API test needs downloaded data and runs a fixed script.",
 ["src/fdb5/api/fdb_c.cc","src/fdb5/api/fdb_c.h"],
 [("every entry point wrapped by an exception barrier","src/fdb5/api/fdb_c.cc")],
 observe=["fdb_* functions"])

prop("C24", "A remote archive gives the same results as a local one",
 "Through a client connected to catalogue and store servers, any sequence of archive, flush, list, inspect, retrieve, axes, statistics and wipe operations gives the results the same sequence gives on a local archive with the same content. Errors on the server reach the client as errors, and the connection stays usable afterwards, also after the servers were restarted. (Values are free of the characters special in URIs.)",
 ["histories", "schedules"], "all operation sequences through the network client, including errors and large fields",
 "Tests run one fixed remote scenario.",
 ["src/fdb5/remote/","src/fdb5/api/RemoteFDB.cc"],
 [("message framing with request ids, server handlers, client queues","src/fdb5/remote/")],
 observe=["RemoteFDB"])

prop("C25", "Object-store databases behave like file databases",
 "Archiving, flushing, listing, inspecting and retrieving through the DAOS backend give the same fields and bytes as the file backend for the same history of one writer at a time, overwritten fields included, in any number of archives used by one process, and wiping removes exactly the selected database. (Fields in an object store may be visible before they are flushed.)",
 ["histories", "inputs"], "all archive/flush/list/retrieve/wipe histories",
 "Tests archive a few fixed fields in the emulated object store.",
 ["src/fdb5/daos/","src/dummy_daos/"],
 [("key-value catalogue of indexes and axes, array per field","src/fdb5/daos/")],
 observe=["FDB with daos configuration"])

prop("C26", "Tuning options never change results",
 "Every combination of performance and format options (sub-TOCs, metadata format versions, index type, buffering, preloading, deduplication of reads, striping and threading choices) gives the same listing and the same bytes for the same history, and databases written under any combination are readable, purgeable and extendable under any other. (Index types with short keys are used where the identifiers fit.)",
 ["configurations", "histories"], "all combinations of options in writer and reader and all histories",
 "Tests run with default options plus one or two fixed ones.",
 ["src/fdb5/toc/","src/fdb5/io/","src/fdb5/config/Config.cc","src/fdb5/LibFdb5.cc"],
 [("options select alternate code paths with the same contract","src/fdb5/toc/TocHandler.cc, src/fdb5/toc/TocStore.cc, src/fdb5/toc/TocIndex.cc, src/fdb5/api/FDB.cc")],
 observe=["FDB::list","FDB::retrieve"])

prop("C27", "Comparing archives reports a difference exactly when there is one",
 "Comparing two archives succeeds exactly when the selected fields are the same set and equal under the chosen scope and tolerances, and reports failure for any missing or extra field, any header key difference that is not ignored, and any value difference beyond the tolerance; the verdict does not depend on the order of the two archives or of their fields.",
 ["inputs", "configurations"], "all pairs of archives differing by missing fields, header changes or value changes and all scopes and tolerances",
 "Tests compare a few fixed pairs.",
 ["src/fdb5/tools/compare/"],
 [("keys compared first, then messages by method","src/fdb5/tools/compare/")],
 observe=["fdb-compare exit status"])

prop("C28", "Chunked array views hold exactly the fields of their requests",
 "Every element of a chunked view equals the value of the field identified by its coordinates: axis order, chunking and extension over several requests are a bijection between array positions and fields. Requests that cannot form such an array, or whose fields are missing, are refused.",
 ["inputs", "configurations"], "all axis definitions, chunkings, request combinations and chunk indices",
 "Tests check a few fixed view shapes.",
 ["src/chunked_data_view/","src/chunked_data_view_bindings/","src/z3fdb/","src/pychunked_data_view/"],
 [("row-major index mapping over axis parameters","src/chunked_data_view/Axis.cc, IndexMapper, ViewPart.cc, GribExtractor.cc")],
 observe=["ChunkedDataView::at"])

prop("C29", "Python bindings agree with the native interface",
 "Every query, retrieval and archive through the Python interface gives exactly the elements, bytes and errors of the native interface, for any selection given as scalars, lists or ranges, and data handles behave as Python byte streams.",
 ["inputs", "programs"], "all selections and call sequences",
 "Python tests check a few fixed calls.",
 ["src/pyfdb/","src/pyfdb_bindings/"],
 [("selection mapping and wrapping of iterators and handles","src/pyfdb/, src/pyfdb_bindings/bindings.cc")],
 observe=["pyfdb"])

prop("C30", "Queries and dry runs never modify anything",
 "No listing, retrieval, inspection, statistics, axes, status, dump or compare operation, and no purge, wipe or hide without confirmation, successful or failing, creates, modifies or deletes any file under the roots.",
 ["histories", "inputs"], "all populations and all read-only or unconfirmed operations with all arguments",
 "Tests do not compare the file system before and after.",
 ["src/fdb5/api/","src/fdb5/toc/","src/fdb5/tools/"],
 [("read-only opens, confirmation flags","src/fdb5/toc/TocHandler.cc, src/fdb5/toc/TocPurgeVisitor.cc, src/fdb5/api/local/WipeVisitor.cc")],
 observe=["hash of the directory tree"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))

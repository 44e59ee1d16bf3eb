#!/usr/bin/env python3
"""Source of /verif/known_findings.json (run: python3 meta/findings.py)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = []; findings = []
def F(prop, commit, what): fixed.append("fixed: property=%s %s %s" % (prop, commit, what))
def K(prop, id, sig, what, case): findings.append({"property": prop, "id": id, "sig": sig, "what": what, "case": case})
F("C02", "e66fd94", "a listing crashed or matched wrongly when an entry had a different number of values than its rule has keywords (Rule::findMatchingKey)")
F("C02", "d786acb", "a listing whose request names a field-level keyword selected fields by the keywords of another rule's datum")
F("C16", "b312a74", "a Double value of seven or more digits in a request was truncated to six significant digits, so the field archived under it was not found")
F("C15", "1b4ea4e", "a schema predicate key=!value (one excluded value) was parsed as a match of the value")
F("C15", "788b27e", "a dumped exclusion predicate lost its `!`, so the dumped schema meant the opposite")
F("C15", "8af89e1", "Rule::findMatchingKey(Key) compared the key's size with all predicates, so keys without optional keywords never matched")
F("C15", "5c2f0c4", "an index rule without a field rule was accepted, and crashed later")
F("C16", "7583391", "a field whose values cannot be canonicalised was stored before it was refused")
F("C15", "05c5f52", "a database rule with a typed keyword (Year, ...) made level-one listings fail, canonicalising an already canonical value")
F("C03", "bab460c", "values of a keyword of type Step other than `step` were matched against the axis of `step` and not found by a retrieval")
F("C02", "3a65065", "the default listing reported two fields with the same values for different optional keywords as one")
F("C16", "b059b7e", "climatological months and days that do not exist (month 0, 12x, feb-30) were accepted as other ones")
F("C16", "7788ee7", "spellings of one date or integer (2020-01-01 and 20200101, 01 and 1) were archived under different keys, and invalid ones were accepted")
F("C16", "37733bb", "a database whose name holds a character special in regular expressions (grid=0.5+0.5) was not found by a listing or retrieval, and with a dbnames file an uninitialised iterator was read")
F("C16", "d574265", "a field without an optional keyword of type Param made retrievals of the others in its index fail")
F("C06", "b7964a2", "retrieving from a database whose toc file had been created but not yet (or, after a crash, never) initialised failed with SeriousBug")
F("C01", "508eee0", "the fields of an index whose first (optional) keyword is missing could not be read: the name of their data file, which starts with a colon, was parsed as a URI")
F("C08", "ee80e6c", "a purge that met a database locked for wiping dereferenced a null pointer (the change to wipe in this commit is undone by 6ad89e4: it is refused)")
F("C08", "15caf61", "a whole database with UniqueRoot disabled could not be wiped: its control file was taken for a foreign file")
F("C10", "b84b2b8", "a move that was refused left the database locked for archiving and wiping")
F("C10", "102bda8", "with a naming table (dbnames) a move put the data into another directory than the catalogue, and the fields were lost")
F("C10", "14714e9", "after a refused move the next move in the same process waited for ever on the index files")
F("C10", "837ad87", "a move failed half-way for databases whose data or index files have toc., schema or .lock in their names (values of keywords)")
F("C11", "784cbc2", "wiping the target of an overlay whose source was hidden deleted the table of contents of the source")
F("C11", "cf9a8f4", "removing one overlay removed all overlays from the target, later ones included; so did hiding")
F("C11", "30f0466", "after the source of an overlay was wiped, reading the target ended in an endless recursion (crash)")
F("C11", "93e5fb3", "after the same database had been overlaid twice (--force) the target could not be listed or read")
F("C11", "bd29f1e", "fdb-reconsolidate-toc always failed with an assertion; and would have kept the oldest version of overwritten fields")
F("C11", "c73f6aa", "wiping a database that shows fields stored elsewhere (overlaid or adopted) failed half-way, removing a directory that is not empty")
F("C14", "b772be9", "the compact listing lost or merged away field keywords that are not hypercube axes of the MARS language")
F("C20", "d8e1e19", "a retrieval read a database from a root with visit: false when the policy of the space happened to pick that root")
F("C20", "61ddd1a", "one candidate database of a request without a matching space, or without a writable root, made the whole retrieval fail")
F("C11", "de78172", "after reconsolidation, the second of two purges failed on a data file removed by the first")
F("C20", "7d197f1", "a listing by some of the keywords of a database did not find databases named by a dbnames rule that has expressions for the others")
F("C21", "a82fc29", "a handle of retrieved fields (FDB_SEEKABLE_DATA_HANDLE) could not be opened again after it had been read to the end and closed")
F("C21", "edbf5c1", "reading a listing with FDB_DEDUPLICATE_FIELDS gave the last field in place of all others")
F("C26", "26271a9", "with FDB_CACHE_TOCS_ON_READ=0 every listing and retrieval failed (data in memory asked for), and so did purges")
F("C24", "5a839e3", "after a restart of a store server a client could not read from it any more")
F("C24", "843b3a2", "a client waited for ever when a store server refused a control message")
F("C24", "3e79555", "wiping a part of a remote database failed when a store holds only other data of it")
F("C24", "41636cb", "a wipe of a remote database repeated after a refused one left its data behind or was refused")
F("C24", "3ccbe95", "fields archived with a local catalogue and a remote store got into indexes of other fields")
F("C18", "b18b1f7", "a key decoded from damaged data whose names have no values recursed without end when printed")
F("C18", "5b3e37a", "a damaged size of a record in a table of contents made readers write beyond the record buffer")
F("C18", "4d86055", "a damaged encoded object lacking its inner object was accepted and a null pointer dereferenced")
F("C18", "eaf02f8", "a damaged encoded schema with a keyword without default was accepted and its empty list read")
F("C18", "b9cf2c7", "a table of contents whose sub-table entry leads back to itself made readers recurse until the stack was exhausted")
F("C23", "1ddc72f", "null arguments of many functions of the C interface crashed the program")
F("C23", "a2e4f90", "iterating the keys of a list element through the C interface ended early at a level without keywords, and crashed on a splitkey never filled")
F("C27", "ed3bfd9", "a comparison of headers only reported different lengths of the data as differences of the headers")
F("C27", "2bb3d0f", "comparing GRIB1 messages by hash keys failed: their sections were taken to be numbered as those of GRIB2")
F("C27", "86cc56f", "equal GRIB2 messages without an optional section were reported as not bit-identical")
F("C27", "a39ac39", "GRIB2 messages of different disciplines were reported as bit-identical")
F("C27", "f4e6b9f", "comparing GRIB1 messages without a bitmap by hash keys failed")
F("C27", "e995079", "--mars-keys-ignore ignored only fields with all of the given pairs, not those with any of them")
F("C28", "c9f4505", "building a view of parts with no axes, or fewer than another part, wrote out of bounds")
F("C28", "b919cd3", "reading a chunk of a view with an axis of no keywords wrote out of bounds")
F("C28", "19939c8", "a chunk with missing fields was given, with undefined values, if other fields were found more than once")
F("C28", "1fc24cd", "a view of parts with fields of different sizes gave values in the wrong places")
F("C29", "b7ba498", 'reading from a data handle in Python padded the last bytes with zeros, so that copies were corrupted')
F("C29", "7ae66bc", 'data handles in Python were read into read-only buffers, and beyond the bounds of buffers that are not contiguous')
F("C29", "8e18ee6", 'through Python, a user configuration was ignored when the configuration is the default one')
F("C29", "3e9dbda", 'get() of axes in Python found none of them')
F("C29", "64946f9", 'text archived through Python was truncated by the bytes its characters take beyond one')
F("C29", "b148f67", 'Python gave truncated paths of data in directories with # or ? in their names')
F("C29", "1ba5db0", 'axes in Python that are empty had values, none, for any key')
F("C25", "0be42c9", 'databases in object stores were searched for with the first configuration a process used')
F("C25", "6fdd5dc", 'the axes of databases in object stores lacked the keywords of fields')
F("C25", "a3928bd", 'data in object stores were looked for in files when listed by a catalogue of files')
F("C25", "d0761a0", 'databases in object stores with overwritten fields could not be wiped')
F("C25", "349f3eb", 'retrievals from object stores over several indexes missed fields, or found those of another index')
F("C25", "f8ca7c9", 'an empty list of objects was read through an element it does not have')
F("C25", "4f07b3c", 'fields with and without an optional keyword could not be retrieved from one index in an object store, nor its database be wiped')
F("C25", "a867a29", 'the wipe of a database with its catalogue in an object store and its data in files failed at files it does not know')
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "findings_known.py")).read())
json.dump({"fixed": fixed, "findings": findings}, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
print(len(fixed), "fixed,", len(findings), "known")

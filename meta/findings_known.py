
K("C17", "C17-elem", "elem-no-field-keyword", "a list element of a field that has no field-level keyword (all of them optional and absent) cannot be decoded: the location is written but not read back (ListElement::encode)",
  ["elem", {"keys": [[["a", "1"]], [["b", "2"]], []], "ts": 0, "loc": {"uri": {"scheme": "file", "path": "/0"}, "off": 0, "len": 0, "remap": []}}, 1])

K("C05", "C05-torn", "torn-toc-record", "a writer killed inside the write of a table-of-contents record longer than a page leaves part of the record, after which no field of the database can be listed, retrieved or archived",
  {"fam":7,"opt":0,"pool":[[0,0,0,0]],"before":[["A",0,0,0,10]],"ops":[["A",0,0,0,1000],["f",0],["c",0]],"arm":1,"n":5,"torn":50,"after":[["a",0,0,1]],"purge":True})

K("C11", "C11-list-remap", "overlay-list-read", "reading a field of an overlaid database through its listed location (list then read, as opposed to retrieve) gives the message of the source database, without the class and expver of the target: listed locations carry no key remapping",
  {"kind": "overlay", "opt": 2, "dbs": [[0, 1, 0, 0], [0, 0, 0, 0]], "pool": [["an", 0, 0, 130]], "ops": [["a", 0, [0]], ["o", 0, 1, 1]], "sample": "GRIB2"})
K("C20", "C20-wipe-root", "C20-wipe-root", "wiping (and purging) does not consult the flags of the root: a database in a root configured with wipe: false is removed (the catalogue is opened by its path, without the root's control identifiers)",
  {"fam": 1, "pool": [[0, 0, 0, 0, 0, 0, 0, 0]], "form": "yaml", "expver": False, "map": [1, -1], "naming": None, "phases": [{"spaces": [{"regex": ".*", "handler": "Default", "roots": [["r0", {"wipe": False}]]}], "ops": [["a", 0, 1]]}], "wipe": 1})
K("C20", "C20-partial-space", "C20-partial-space", "a listing by some of the keywords of a database does not look in spaces whose regular expression needs the values of the others: the expression is matched with empty values in their place",
  {"fam": 1, "pool": [[0, 0, 0, 0, 0, 0, 0, 0]], "form": "yaml", "expver": False, "map": [1, -1], "naming": None, "phases": [{"spaces": [{"regex": ".*:oper$", "handler": "Default", "roots": [["r0", {}]]}], "ops": [["a", 0, 1], ["l", {"cl": ["od"]}]]}], "wipe": 0})
K("C21", "C21-dedup-mixed", "dedup-mixed", "with FDB_DEDUPLICATE_FIELDS=1, a read of listed fields that do not all have the same keywords loses fields: they are identified by their cell in a MARS hypercube, in which an absent keyword counts as its first value",
  {"env": 2, "grib": False, "opt": 0, "fam": 2, "pool": [[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1], [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]], "ops": [["a", 0, 0, 1], ["a", 0, 1, 1]], "handles": [["list", False, [0], [["read", 0, 0]]]]})
K("C26", "C26-btree4mb", "btree4mb", "with FDB_INDEX_TYPE=BTreeIndex4MB the writing process crashes: the pages of 4 MiB of the index are put on the stack",
  json.loads('{"fam": 1, "pool": [[0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0]], "phases": [{"w": [{}, {"FDB5_SERIALISATION_VERSION": "3", "FDB_INDEX_TYPE": "BTreeIndex4MB", "VDRIVER_RES": "fdbBufferSize=1;fdbRoundTocRecords=512"}], "ops": [["a", 0, 0, 1]], "r": [{"preloadBTree": true}, {"FDB_LOAD_INDEX_THREADS": "5", "FDB_OPEN_NOATIME": "1", "FDB_SEEKABLE_DATA_HANDLE": "1", "VDRIVER_RES": "fdbMaxNbDBsOpen=2"}]}], "purge": null, "last": [[{"preloadBTree": true}, {"FDB_OPEN_NOATIME": "1", "FDB_DATA_SYNC_ON_FLUSH": "0", "FDB_SEEKABLE_DATA_HANDLE": "1"}]]}'))
K("C23", "C23-dups-flag", "dups-flag", "fdb_list takes its argument duplicates for the opposite of what its documentation says: with true, superseded fields are left out, with false they are reported (existing tests rely on it)",
  {"env": 0, "opt": 0, "pool": [[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]], "ops": [["a", 0, 0, 20, 0], ["f", 0], ["a", 0, 0, 20, 0], ["f", 0], ["D"]]})
K("C25", "C25-orphan-file", "orphan-file", "a database with its catalogue in an object store and its data in files cannot be wiped (\"unclean\") when all fields of a data file have been overwritten: the catalogue has no record of that file",
  {"fam": 1, "pool": [[0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0]], "store": "file", "cat": "daos", "alloc": 1, "proc": False, "ops": [["a", 0, 0, 1], ["f", 0], ["a", 1, 0, 1], ["f", 1], ["w", 0, 0, True]]})
K("C25", "C25-stale-container", "stale-container", "a process that has read or written a database in an object store does not find the fields archived after the database was wiped by another: it keeps the container of the wiped one open",
  {"fam": 1, "pool": [[0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0]], "store": "daos", "cat": "daos", "alloc": 1, "proc": False, "stay": True, "ops": [["a", 0, 0, 1], ["f", 0], ["q", [0, 0]], ["w", 0, 0, True], ["a", 0, 0, 1], ["f", 0], ["q", [0]]]})

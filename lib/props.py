"""Single source for properties.jsonl and MANIFEST.json: python3 lib/props.py"""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


ASAN = "Runs the real library (ASan+UBSan build of the current tree). "

prop("P01", "Identifiers map to UUIDs by one fixed rule",
     "A UUID given as identifier (alone or as the last path segment of a URL, in any letter case) is used itself in lower case; "
     "any other URL maps to the version-5 (SHA-1, DNS namespace) UUID of its text, and a plain name to the version-5 UUID of the "
     "name, or of the default data namespace + '/' + name when namespaced ids are enabled; no identifier gives a fresh random "
     "version-4 UUID. Normalising an identifier prefixes UUIDs and names with the namespace and leaves URLs alone, never writes "
     "outside the given buffer and reports the full length, and normalised URL-safe identifiers denote the same UUID as the "
     "original. The same rule holds for instances, metadata, the C and Python functions and the command line tool, and joining "
     "and splitting metadata URIs are inverse.",
     ["inputs", "configurations"], "all identifiers (UUID, URL/UUID, URL, name; any length and encoding), both id-namespacing behaviours, all buffer sizes",
     "Tests check a dozen fixed identifiers; the rule must hold for every identifier, length, case and buffer size.",
     ["src/dlite-misc.c", "src/utils/uuid.c", "src/utils/urlsplit.c", "src/utils/sha1.c", "tools/dlite-getuuid.c"],
     [("dlite_get_uuid", "src/dlite-misc.c"), ("dlite_normalise_id", "src/dlite-misc.c"), ("uuid_create_sha1_from_name", "src/utils/uuid.c")],
     "reference-model monitor over random identifiers under ASan/UBSan",
     ASAN + "Every generated identifier is compared with an independent model (hashlib SHA-1) in C, Python and the CLI tool.")

prop("P02", "One live instance per identity, freed exactly when the last reference goes",
     "While an instance is alive every way of looking it up (by UUID, by identifier, from C or Python) yields that same object and it cannot "
     "be created a second time with other metadata or dimensions; its reference count equals the references handed out. When the last "
     "reference is dropped the instance disappears from the in-memory store, its memory and its references to metadata are released, and it "
     "is never touched again. Failed creations, lookups and loads leave every reference count and the set of live instances as they were.",
     ["histories", "inputs"], "all sequences of create, get, incref, decref, copy, snapshot, failed create/get and Python garbage collection",
     "Unit tests create a handful of instances and never check the counts and live set after arbitrary histories or failures.",
     ["src/dlite-entity.c", "bindings/python/dlite-entity.i"],
     [("in-memory instance store", "src/dlite-entity.c"), ("dlite_instance_decref", "src/dlite-entity.c")],
     "reference-count model checked after every operation of random histories, under ASan",
     ASAN + "A Python model of live objects and their counts is compared after every operation; ASan traps use after free.")

prop("P03", "Instances follow the memory layout their metadata prescribes",
     "Metadata built from any dimensions, property types and shape expressions describes non-overlapping, correctly aligned members within "
     "the allocated instance; a new instance has all dimensions as given, every shape expression evaluated to its arithmetic value, "
     "and all properties zero-initialised. Names, types, sizes, units, descriptions and shapes read back from the metadata are those given; "
     "undefined dimensions, duplicated names and invalid sizes are rejected with an error instead of a corrupt instance.",
     ["inputs"], "all entities (types, sizes, dimension counts, shape expressions) and dimension values including zero",
     "Tests use a few fixed entities; offsets and padding depend on every combination of types and dimensions.",
     ["src/dlite-entity.c", "src/dlite-type.c", "src/utils/infixcalc.c", "src/dlite-schemas.c"],
     [("dlite_meta_init", "src/dlite-entity.c"), ("dlite_type_get_member_offset", "src/dlite-type.c")],
     "layout invariant monitor on live instances of random entities under ASan/UBSan",
     ASAN + "Offsets, alignment and extents are read from the live metadata and checked for overlap, bounds and alignment.")

prop("P04", "Property values read back exactly as written, also across resizing",
     "A value assigned to a property (by index or name, from C or Python, of any type and shape) reads back equal and changes no other "
     "property, dimension or other instance. Changing dimension sizes keeps the dimension-independent properties and, for properties "
     "whose size changes, the leading elements that still fit in memory order with new elements zero, leaves consistent shapes, and is "
     "refused without effect for metadata and frozen instances. Out-of-range indices, unknown names and unconvertible values raise an "
     "error and leave the instance unchanged.",
     ["inputs", "histories"], "all entities, values and sequences of property assignments and dimension changes",
     "Tests assign a few constants; interference and resize bugs depend on the type mix, the shapes and the order of operations.",
     ["src/dlite-entity.c", "src/dlite-type.c", "bindings/python/dlite-entity.i", "bindings/python/dlite-python.i"],
     [("dlite_instance_set_property_by_index", "src/dlite-entity.c"), ("dlite_instance_set_dimension_sizes", "src/dlite-entity.c")],
     "shadow-model monitor over random assignment/resize histories under ASan/UBSan",
     ASAN + "All properties and dimensions are compared with a shadow model after every operation.")

prop("P05", "A copy is equal to its source and independent of it",
     "Copying an instance gives a new instance with its own identity, the same metadata, equal dimensions and values and an equal content "
     "hash. Any later change or release of either one never shows in the other. The same holds for copied single values, "
     "triples, arrays, and for data moved between flat and nested buffers.",
     ["inputs", "histories"], "all instances (all property types, zero-size arrays, null strings) and later modifications",
     "Tests copy one instance; aliasing shows only for particular types and after later modification or release.",
     ["src/dlite-entity.c", "src/dlite-type.c", "src/triple.c", "src/dlite-datamodel.c"],
     [("dlite_instance_copy", "src/dlite-entity.c"), ("dlite_type_copy", "src/dlite-type.c"), ("dlite_copy_to_flat", "src/dlite-datamodel.c")],
     "differential monitor: copy, mutate/free one side, compare the other; ASan for aliasing",
     ASAN + "Pointer-holding types are freed on one side and read on the other.")

prop("P06", "The content hash depends on the content and on all of it",
     "Two instances of the same metadata with equal dimensions, values and parent have the same hash whatever history produced them, in "
     "every process and through every serialisation. Changing any single property value, string, array element or relation of an instance "
     "or collection changes the hash, and restoring it restores the hash. A hash verification succeeds exactly for unchanged content.",
     ["inputs", "histories"], "all instances and collections, all single-element changes, all orders of assignment",
     "Tests compare one hash; whether every element takes part can only be seen by changing each of them.",
     ["src/dlite-entity.c", "src/dlite-type.c", "src/dlite-collection.c", "src/utils/sha3.c"],
     [("dlite_instance_get_hash", "src/dlite-entity.c"), ("dlite_type_update_sha3", "src/dlite-type.c"), ("dlite_collection_gethash", "src/dlite-collection.c")],
     "metamorphic monitor: equal content/equal hash, each single mutation/different hash",
     ASAN + "Every element position of random instances is mutated and restored; hashes are recomputed by a second process.")

prop("P07", "Transactions: snapshots are immutable, ordered and verifiable",
     "Taking a snapshot freezes the present content as a new immutable parent while the instance stays editable; the n-th ancestor always "
     "reads exactly as the instance did at the n-th last snapshot, whatever is done to the instance later. A frozen instance or collection "
     "rejects every modification through the API and only frozen instances can be parents; verification of a chain succeeds exactly when "
     "no ancestor has been tampered with or is missing. Storages without support for transactions reject pushing and pulling of "
     "snapshots without any effect; otherwise pushing moves exactly the older ancestors to the storage, with their parent links.",
     ["histories", "inputs"], "all sequences of edits, freezes, snapshots, push/pull and verifications",
     "Tests do one short sequence; the guarantee is about every history of edits and snapshots.",
     ["src/dlite-entity.c", "bindings/python/dlite-entity.i"],
     [("dlite_instance_snapshot", "src/dlite-entity.c"), ("dlite_instance_verify_transaction", "src/dlite-entity.c")],
     "history monitor with a list-of-versions model under ASan",
     ASAN + "Every ancestor is compared with the recorded version after every step.")

prop("P08", "Type names, sizes and text representations are consistent",
     "Every supported type name maps to a type and size and back to the canonical name, with correct alignment, and invalid "
     "names are rejected. Printing any value and scanning the text gives back the same value (to the printed precision for floats) and "
     "consumes exactly the printed text. Printing never writes outside the given buffer, always terminates the text and returns the full "
     "length; scanning never reads beyond the given length.",
     ["inputs"], "all types, sizes, values, flags, buffer sizes and truncated texts",
     "Tests print a few values into large buffers.",
     ["src/dlite-type.c", "src/utils/strutils.c", "src/utils/strtob.c"],
     [("dlite_type_print", "src/dlite-type.c"), ("dlite_type_scan", "src/dlite-type.c"), ("dlite_type_set_dtype_and_size", "src/dlite-type.c")],
     "round-trip monitor with exact-size red-zoned buffers under ASan/UBSan",
     ASAN + "Buffers are allocated at exactly the stated size so any overrun is trapped.")

prop("P09", "Casts between types and layouts move every element correctly",
     "Casting an n-dimensional array copies element (i,j,..) of the source to element (i,j,..) of the destination for every combination of "
     "types, sizes and strides, touches no other memory, and preserves every value representable in the destination type. "
     "Integers and text that do not fit or do not parse give an error rather than a wrong value where the cast is defined to check.",
     ["inputs"], "all type pairs, shapes, strides (including negative, transposed and padded) and values",
     "Tests cover a few type pairs on small contiguous arrays.",
     ["src/dlite-type-cast.c", "src/dlite-entity.c"],
     [("dlite_type_ndcast", "src/dlite-type-cast.c"), ("dlite_type_copy_cast", "src/dlite-type-cast.c")],
     "element-wise reference model with poisoned gaps under ASan/UBSan",
     ASAN + "Gaps between strided elements are filled with a pattern and checked to be untouched.")

prop("P10", "JSON serialisation loses nothing and is valid JSON",
     "The JSON text of any data instance, metadata or collection (in every flag combination) is valid JSON with the documented members, and "
     "loading it gives an instance with the same identity, metadata, dimensions, values and hash; printing the loaded instance again gives "
     "the same text. Several instances in one text are all found, individually by UUID or identifier and by iteration. Output into a "
     "buffer never exceeds it and the returned length is exact.",
     ["inputs"], "all instances (every type, text content, shape, units, references), all flags and buffer sizes",
     "Tests serialise a few fixed instances; escaping, precision and layout errors need particular values.",
     ["src/dlite-json.c", "src/dlite-entity.c", "src/utils/jstore.c", "src/utils/jsmnx.c", "src/dlite-type.c"],
     [("dlite_json_sprint", "src/dlite-json.c"), ("dlite_json_sscan", "src/dlite-json.c")],
     "round-trip monitor; text judged by Python's json module and a value model, under ASan/UBSan",
     ASAN + "Python's json module is the independent parser.")

prop("P11", "Malformed input is reported as an error and never corrupts memory",
     "Whatever bytes are given as JSON, BSON, YAML, URL, option string, template, type name, metadata or storage file, the library returns "
     "either a complete, self-consistent instance or a clean error. It never crashes, reads or writes outside its buffers or hangs, and "
     "after the error live instances and reference counts are as before and valid input still loads.",
     ["inputs", "fault_sequences"], "all mutations, truncations and splices of valid documents",
     "Tests hold a few hand-made bad inputs; memory errors need particular malformed structure.",
     ["src/dlite-json.c", "src/dlite-bson.c", "src/utils/bson.c", "src/utils/jsmn.h", "src/utils/jsmnx.c", "src/utils/jstore.c", "src/dlite-misc.c", "src/utils/tgen.c"],
     [("dlite_json_sscan", "src/dlite-json.c"), ("dlite_bson_load_instance", "src/dlite-bson.c")],
     "structure-aware mutation stress under ASan/UBSan with live-set monitor",
     ASAN + "Each input sits in an exact-size heap block; the live set and a canary load are checked after each error.")

prop("P12", "Binary (BSON) serialisation loses nothing",
     "Converting an instance to BSON and back preserves identity, metadata, dimensions, and every value; the document is well-formed BSON "
     "that an independent implementation reads with the same values. The size reported in advance equals the size written, and "
     "writing to a too small buffer writes nothing beyond it.",
     ["inputs"], "all instances and metadata, all element types of the BSON encoder, all buffer sizes",
     "Tests encode one document and one instance.",
     ["src/utils/bson.c", "src/dlite-bson.c"],
     [("dlite_bson_from_instance", "src/dlite-bson.c"), ("bson_append", "src/utils/bson.c")],
     "round-trip monitor judged by an independent BSON decoder under ASan/UBSan",
     ASAN + "A small independent BSON decoder (and pymongo's bson) reads the documents.")

prop("P13", "What is saved to a storage is what is loaded from it",
     "For every storage driver that can write (json, hdf5, yaml, bson, csv, pyrdf/rdf, pickle, template-free text ...) an instance saved and "
     "then loaded in another process, by UUID or identifier, equals the original in identity, metadata, dimensions, values and hash "
     "within what the format documents (RDF does not record the order of dimensions and properties, HDF5 no metadata, identifiers or "
     "references, BSON no unsigned integers beyond 63 bits, csv one table). The same holds for metadata, collections, in-memory buffers, "
     "pickles, URLs and the Python save/load helpers.",
     ["inputs", "configurations"], "all instances within the driver's documented types, all drivers, file and memory round-trips",
     "Tests save one sample per driver.",
     ["storages/json/dlite-json-storage.c", "storages/hdf5/dh5lite.c", "storages/rdf/dlite-rdf.c", "storages/python/python-storage-plugins", "src/dlite-storage.c"],
     [("dlite_instance_save", "src/dlite-entity.c"), ("dlite_storage_load", "src/dlite-storage.c")],
     "cross-process round-trip monitor over random instances and all drivers under ASan/UBSan",
     ASAN + "Loading is done with all live copies dropped, so values must come from the storage.")

prop("P14", "Storages behave as a persistent map from identity to latest content",
     "Over any sequence of opening (read, write, append modes), saving, overwriting, deleting, iterating and closing, a storage "
     "holds exactly the instances and contents its mode prescribes: write truncates, append keeps and updates, read never modifies. "
     "Listing yields each stored UUID exactly once (restricted to the requested metadata), loading a missing or deleted instance is an "
     "error, an instance loaded again after it was released is intact, closing writes everything saved, and failed operations leave the "
     "stored content intact.",
     ["histories"], "all histories of open modes, save, delete, load, list, close and reopen, with many instances",
     "Tests do single save/load pairs.",
     ["src/dlite-storage.c", "storages/json/dlite-json-storage.c", "storages/hdf5/dh5lite.c", "storages/python/python-storage-plugins"],
     [("dlite_storage_open", "src/dlite-storage.c"), ("json_save", "storages/json/dlite-json-storage.c")],
     "history monitor against a dictionary model under ASan",
     ASAN + "The file is also read with an independent parser at quiescent points.")

prop("P15", "Instances are found wherever the search configuration says",
     "An instance not in memory is found if and only if it is in an open registered storage or in a storage on the search path (files, "
     "directories with wildcards, URLs, in order), and never otherwise. Adding, inserting and removing search paths and registered "
     "storages has exactly the effect of the corresponding list operation; registering and unregistering in any order is safe.",
     ["histories", "configurations"], "all sequences of path/registration changes and lookups",
     "Tests use a fixed search path.",
     ["src/dlite-storage.c", "src/dlite-entity.c", "src/utils/fileutils.c", "bindings/python/dlite-path.i"],
     [("dlite_storage_paths", "src/dlite-storage.c"), ("dlite_storage_hotlist_add", "src/dlite-storage.c"), ("dlite_instance_get", "src/dlite-entity.c")],
     "history monitor against a list model under ASan",
     ASAN + "Lookups are predicted from the model of paths and files.")

prop("P16", "A collection holds exactly the labelled instances and relations added",
     "After any sequence of adding, replacing and removing labelled instances and relations, lookups by label or id, iteration, counting, "
     "relation queries with wildcards and the exported properties agree with the set of operations performed; labels are unique. "
     "Collections keep their instances alive exactly as long as they contain them, and saving and loading a collection (also lazily) "
     "restores labels, instances and relations.",
     ["histories"], "all sequences of add, remove, get, query, iterate, copy, save and load",
     "Tests do one fixed sequence.",
     ["src/dlite-collection.c", "bindings/python/dlite-collection.i", "bindings/python/dlite-collection-python.i"],
     [("dlite_collection_add", "src/dlite-collection.c"), ("dlite_collection_remove", "src/dlite-collection.c")],
     "history monitor against a set/dict model with reference counts under ASan",
     ASAN + "Reference counts of members are part of the model.")

prop("P17", "The triplestore is a set of triples with exact wildcard queries",
     "Adding, removing (with wildcards) and clearing relations acts as on a mathematical set; the length, iteration and queries with any "
     "combination of given and free subject, predicate, object and datatype return exactly the matching triples, each once. Triples keep "
     "literals, language tags and datatypes apart and read back as given; single-value lookup returns the unique match, the fallback, "
     "or an error as documented.",
     ["histories", "inputs"], "all sequences of add/remove/find and all wildcard patterns",
     "Tests use a dozen triples.",
     ["src/triplestore-redland.c", "src/triplestore-builtin.c", "src/triplestore.c", "src/triple.c"],
     [("triplestore_add", "src/triplestore-redland.c"), ("triplestore_find", "src/triplestore-redland.c")],
     "history monitor against a Python set under ASan",
     ASAN + "Both the Redland and the built-in implementation are driven.")

prop("P18", "References between instances keep their targets and survive serialisation",
     "A property that refers to other instances (scalar or array) holds a counted reference: the target stays alive and reachable through it "
     "until the reference is replaced, the holder is resized or released. Through the C API, assigning an instance of "
     "other metadata than declared is rejected; "
     "after saving and loading, in any order, the references denote the same identities, including shared targets.",
     ["histories", "inputs"], "all reference graphs and sequences of assignment, replacement and release",
     "Tests use one chain of references.",
     ["src/dlite-entity.c", "src/dlite-type.c", "src/dlite-json.c", "bindings/python/dlite-python.i"],
     [("dliteRef handling", "src/dlite-type.c")],
     "reference-graph model with counts under ASan",
     ASAN + "Counts of all targets are compared with the graph model after every step.")

prop("P19", "String utilities honour their contracts for every text and buffer size",
     "Quoting and unquoting, hex and Unicode conversions, case, number, boolean and version parsing and comparisons, category scans, "
     "padded, concatenated and formatted buffer writes agree with their documented definitions for every input. Every function that fills "
     "a buffer stays inside it, terminates it and returns the length needed; growing buffers keep their earlier content.",
     ["inputs"], "all texts (including quotes, escapes, multibyte and invalid UTF-8) and buffer sizes",
     "Tests use a few strings each.",
     ["src/utils/strutils.c", "src/utils/unicode.c", "src/utils/strtob.c", "src/utils/compat.c", "src/utils/clp2.c"],
     [("strquote", "src/utils/strutils.c"), ("asnpprintf", "src/utils/compat.c"), ("strcmp_semver", "src/utils/strutils.c")],
     "reference-model monitor with exact-size buffers under ASan/UBSan",
     ASAN + "Buffers are exact-size heap blocks.")

prop("P20", "URLs, percent-encoding and option strings split and join losslessly",
     "Splitting a URL or driver://location?options#fragment string and joining the parts gives the same string, each part being what RFC 3986 "
     "(respectively the documented form) says; encoding then decoding gives the same bytes with only reserved characters escaped. Option "
     "strings set exactly the named options (percent-decoded, '&' or ';' separated, defaults kept) and reject unknown keys.",
     ["inputs"], "all URLs, byte strings, option strings and buffer sizes",
     "Tests split a handful of URLs.",
     ["src/utils/urlsplit.c", "src/utils/uri_encode.c", "src/dlite-misc.c", "bindings/python/options.py"],
     [("urlsplit", "src/utils/urlsplit.c"), ("uri_encode", "src/utils/uri_encode.c"), ("dlite_split_url", "src/dlite-misc.c"), ("dlite_option_parse", "src/dlite-misc.c")],
     "reference-model and round-trip monitor under ASan/UBSan",
     ASAN + "Python's urllib is the independent model for encoding.")

prop("P21", "Dimension expressions evaluate to their arithmetic value",
     "The integer expression evaluator gives every well-formed expression (the documented binary arithmetic, power, comparison and logic "
     "operators with their precedence, parentheses and variables) its mathematical value, and reports division by zero, overflow, "
     "negative exponents, unknown variables and malformed expressions as errors. It never reads outside the expression or writes outside the error buffer.",
     ["inputs"], "all expressions over the supported operators and variables",
     "Tests hold ~40 expressions.",
     ["src/utils/infixcalc.c"],
     [("infixcalc", "src/utils/infixcalc.c")],
     "differential monitor against an independent evaluator under ASan/UBSan",
     ASAN + "A separate precedence parser in Python is the oracle.")

prop("P22", "In-memory containers behave as the maps they represent",
     "The string-keyed map, the JSON store, the session store and the instance store return for each key exactly what was last put there, "
     "enumerate each remaining key once, and report missing keys as missing, for every sequence of insertions, replacements, removals and "
     "iterations. Values, including their ownership, are released exactly once; the JSON store written out and read back holds the same "
     "content.",
     ["histories", "inputs"], "all operation sequences over few and many keys, growing through all table sizes",
     "Tests insert a few keys in one order.",
     ["src/utils/map.c", "src/utils/jstore.c", "src/utils/session.c", "src/dlite-store.c"],
     [("map_set_", "src/utils/map.c"), ("jstore_add", "src/utils/jstore.c"), ("session_add_state", "src/utils/session.c"), ("dlite_store_add", "src/dlite-store.c")],
     "history monitor against a dictionary under ASan with free counters",
     ASAN + "Free callbacks are counted per value.")

prop("P23", "Template expansion and code generation produce what the template says",
     "Expanding a template replaces every variable, condition, loop, alignment and format directive as documented and copies all other text "
     "verbatim; undefined variables and malformed directives are errors. Code generated for any entity or instance compiles and describes "
     "exactly the same dimensions, properties, types and values as the instance.",
     ["inputs", "programs"], "all templates over the documented directives and all entities",
     "Tests expand fixed templates and compile code for two entities.",
     ["src/utils/tgen.c", "src/dlite-codegen.c", "tools/templates"],
     [("tgen", "src/utils/tgen.c"), ("dlite_codegen", "src/dlite-codegen.c")],
     "differential monitor: independent template model; generated C is compiled and compared",
     ASAN + "The generated header's struct offsets are compared with the metadata layout by a compiled program.")

prop("P24", "Errors are reported once, with the right code, and never swallow results",
     "A failing call sets the error code, message and (in Python) raises the exception class corresponding to that code; a succeeding call "
     "leaves no error behind. Nested error handling blocks catch, clear, re-raise and chain errors exactly as documented and never leak state to "
     "the outer level; messages of any length are truncated safely. Ignored error codes suppress printing only for those codes.",
     ["inputs", "histories"], "all error codes, message lengths, nesting depths and handler/mode settings",
     "Tests use short messages and a few codes.",
     ["src/utils/err.c", "src/utils/err.h", "src/dlite-errors.c", "src/dlite-misc.c", "bindings/python/dlite-python.i"],
     [("_err_vformat", "src/utils/err.c"), ("ErrTry", "src/utils/err.h"), ("dlite_errname", "src/dlite-errors.c")],
     "history monitor against a model of the error stack under ASan/UBSan",
     ASAN + "A compiled C driver exercises the nesting macros; Python exceptions are compared by class.")

prop("P25", "Independent threads do not interfere",
     "Threads using the library on their own data (error handling, hashing, UUID and random generation, parsing, "
     "string and JSON utilities) get the same results as when run alone. Error state, error messages and try/catch blocks of one thread are never seen "
     "by another, and no data race occurs in the thread-safe parts.",
     ["schedules"], "all interleavings of threads calling the thread-safe parts of the library",
     "Tests are single threaded.",
     ["src/utils/err.c", "src/utils/session.c", "src/utils/rng.c", "src/utils/uuid4.c"],
     [("thread-local error record", "src/utils/err.c")],
     "ThreadSanitizer stress plus per-thread result comparison",
     "TSan build of the current tree; races in the driven code are reported, results are compared with the single-threaded run.")

prop("P26", "Digests and random generators follow their specifications",
     "MD5, SHA-1, SHA-3 and Keccak digests of any data equal the standard's, however the data is split over update calls; the path hash equals "
     "the hash of the described tree. The random generators reproduce the same sequence from the same seed, fill exactly the requested bytes, "
     "and show no repetition or bias; random UUIDs are well-formed and distinct.",
     ["inputs", "histories"], "all messages, all splits into updates, all seeds",
     "Tests hash a few constant strings.",
     ["src/utils/md5.c", "src/utils/sha1.c", "src/utils/sha3.c", "src/utils/rng.c", "src/utils/uuid.c", "src/utils/uuid4.c", "src/pathshash.c"],
     [("sha3_Update", "src/utils/sha3.c"), ("SHA1Update", "src/utils/sha1.c"), ("MD5_Update", "src/utils/md5.c")],
     "differential monitor against hashlib under ASan/UBSan",
     ASAN + "Python's hashlib is the oracle.")

prop("P27", "Python views of instances show live data and keep it alive",
     "Arrays and values obtained from an instance in Python have the property's type and shape, show later changes where they are views, write "
     "through, and stay valid after every other reference to the instance is gone. Converting any accepted Python value and reading it back gives "
     "the same value; unacceptable values raise an exception and change nothing. Dictionary, item, attribute and positional access agree.",
     ["histories", "inputs"], "all property types and shapes, orders of release and Python value kinds",
     "Tests never release the instance before its views.",
     ["bindings/python/dlite-entity.i", "bindings/python/dlite-entity-python.i", "bindings/python/dlite-python.i"],
     [("numpy views", "bindings/python/dlite-python.i"), ("dlite_swig_set_property_by_index", "bindings/python/dlite-python.i")],
     "keep-alive and write-through monitor in CPython under ASan",
     ASAN + "Instances are released in random order while views are still used.")

prop("P28", "Mappings find the cheapest route and compute it faithfully",
     "Given any set of registered mappings, an instance of the requested metadata is produced if and only if some chain of mappings from "
     "the available inputs leads to it, and the chain used has the minimal total cost. The result equals applying the mapping functions in "
     "order; the inputs are left unchanged and no instance is leaked or freed too early.",
     ["inputs", "programs"], "all mapping graphs, costs and input sets",
     "Tests use four fixed mappings.",
     ["src/dlite-mapping.c", "src/dlite-mapping-plugins.c"],
     [("dlite_mapping_create", "src/dlite-mapping.c")],
     "differential monitor against an exhaustive route search under ASan",
     ASAN + "Plugins come from generated C libraries and Python modules; routes, costs and results are recomputed independently.")

prop("P29", "File paths, globbing and path lists follow their rules",
     "Joining, splitting, normalising and extension functions for paths agree with the documented rules on every input; glob matching agrees with "
     "the definition of *, ?, [..] and escapes. Path lists keep order under insertion, appending, extension and removal, file searches yield "
     "exactly the existing matching files in path order, and temporary files are unique.",
     ["inputs", "histories"], "all paths, patterns, path-list histories and directory contents",
     "Tests use a few paths.",
     ["src/utils/fileutils.c", "src/utils/globmatch.c", "src/utils/tmpfileplus.c", "src/utils/fileinfo.c"],
     [("fu_join", "src/utils/fileutils.c"), ("globmatch", "src/utils/globmatch.c"), ("fu_paths_insert", "src/utils/fileutils.c")],
     "reference-model monitor under ASan/UBSan with scratch directories",
     ASAN + "os.path, a reference glob matcher and directory listings are the oracle.")

prop("P30", "Array views index the elements they denote",
     "Slicing, transposing, reshaping and iterating an array description visit exactly the elements that the mathematical definition gives, in row-major "
     "order, without copying; making it contiguous or comparing arrays uses those elements. Indexing outside the shape and incompatible "
     "reshapes are rejected; copying between flat and nested buffers preserves every element.",
     ["inputs"], "all shapes, orders, slices (positive and negative steps) and compositions of views",
     "Tests use two arrays.",
     ["src/dlite-arrays.c", "src/dlite-datamodel.c"],
     [("dlite_array_slice", "src/dlite-arrays.c"), ("dlite_array_iter_next", "src/dlite-arrays.c")],
     "differential monitor against numpy under ASan/UBSan",
     ASAN + "numpy is the oracle.")

prop("P31", "Memory is conserved over repeated work",
     "Repeating any supported operation, successful or failing, (create/destroy, set, resize, copy, hash, serialise, load, collections, "
     "relations, templates, options, paths) does not let the number of live memory blocks grow. Everything the library allocates on behalf "
     "of a call is either owned by a documented result or released before it returns.",
     ["histories", "inputs"], "all operations repeated any number of times",
     "Tests run each operation once and run without leak checking.",
     ["src/dlite-entity.c", "src/dlite-json.c", "src/dlite-collection.c", "src/dlite-storage.c", "src/dlite-misc.c", "src/utils"],
     [("free/decref paths", "src/dlite-entity.c")],
     "conservation monitor: live malloc blocks counted by allocator hooks over repeated operations",
     ASAN + "Growth is counted in blocks by the sanitizer's allocation hooks, so one leaked block per repetition is seen.")

prop("P32", "Python data-model helpers keep the described content",
     "Data models built or read through the Python helpers (tables, data-model builder, dictionaries, options, quantities, protocols, "
     "instance factories) hold exactly the content given. Converting back gives the same content, invalid content is rejected, and "
     "unit-aware access agrees with the stored values.",
     ["inputs"], "all tables, data models, dictionaries, quantities and files",
     "Tests use one example per helper.",
     ["bindings/python/table.py", "bindings/python/datamodel.py", "bindings/python/options.py", "bindings/python/quantity.py", "bindings/python/protocol.py", "bindings/python/factory.py", "bindings/python/utils.py"],
     [("DataModel", "bindings/python/datamodel.py"), ("Table", "bindings/python/table.py"), ("Protocol", "bindings/python/protocol.py")],
     "round-trip monitor over random content under ASan",
     ASAN + "Random tables, models and files; results compared with the input.")

NOT_APPLICABLE = []


def main():
    done = [p for p in P if os.path.exists(os.path.join(VERIF, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    na = list(NOT_APPLICABLE)
    for p in P:
        if p not in done and not any(n["property"] == p["id"] for n in na):
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3 lib/build.py py",
             checks=[dict(property=p["id"], quick_cmd="python3 lib/runner.py %s" % p["id"],
                          thorough_cmd="python3 lib/runner.py %s --tier thorough" % p["id"],
                          technique=p["technique"], level="exploration", level_note=p["note"]) for p in done],
             not_applicable=na,
             notes="Runtime monitoring and sanitizers. Every check rebuilds an instrumented DLite from /repo into "
                   "/verif/_build and drives it; see DESIGN.md.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks" % (len(P), len(done)))


if __name__ == "__main__":
    main()

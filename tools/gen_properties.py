#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the lines stay valid JSON)."""
import json, os

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": a,
        }
    )


R = "vistautils/range.py"
S = "vistautils/span.py"
KV = "vistautils/key_value.py"
PA = "vistautils/parameters.py"
IO = "vistautils/io_utils.py"

prop(
    "C01",
    "A range contains exactly the values its bounds say, and bad bounds are refused",
    "For each of the nine kinds of range and any endpoints of one totally ordered type, a value is a member exactly when it satisfies the mathematical definition of that range, and the range reports the bounds, bound types and emptiness it was built with. Endpoints whose upper one lies below the lower one, and an open range whose endpoints are equal, are refused with a ValueError; a half-open range with equal endpoints is valid and empty. Asking for an endpoint or bound type that does not exist raises rather than answering, and asking whether None is a member raises a ValueError.",
    ["inputs"],
    "all endpoint pairs and all probe values of any totally ordered type (ints, floats, strings, dates, tuples, fractions)",
    "The tests look at a few integer ranges; membership, emptiness and validity must hold for all bound-kind x endpoint x probe combinations and for endpoint types other than int.",
    [R],
    [("_Cut ordering", R + ":70"), ("Range construction check", R + ":378"), ("Range.__contains__", R + ":469")],
)
prop(
    "C02",
    "Range enclosure, connection, span and intersection agree with set semantics",
    "For any two ranges of one ordered type: one encloses the other exactly when its bounds are at least as wide on both sides, they are connected exactly when some possibly empty range lies inside both, their span is the smallest range enclosing both, and their intersection is the largest range enclosed by both. Intersecting ranges that are not connected raises a ValueError, and the 'intersects' question answers true exactly when an intersection (possibly empty) exists. Span and intersection are commutative, associative and idempotent, and the span of a non-empty collection of ranges is the smallest range enclosing them all, in whatever order they come; an empty collection raises a ValueError.",
    ["inputs"],
    "all pairs (and, for associativity and collections, triples) of ranges, including empty, singleton, unbounded and touching ones",
    "Tests exercise hand-picked pairs; the algebra has nine kinds per side with equality/touching corner cases that only an all-pairs sweep reaches.",
    [R],
    [("encloses/is_connected/span/intersection/intersects", R + ":475"), ("create_spanning", R + ":433")],
)
prop(
    "C03",
    "Range equality, hashing and serialisation are value-based",
    "Two ranges are equal exactly when they have the same bounds of the same kinds, equal ranges hash equally, and a range is never equal to a non-range. Copying, deep-copying, or pickling and unpickling a range with any pickle protocol gives a range equal to the original which behaves identically in every query. The printed form of every range can be produced and distinguishes ranges that differ.",
    ["inputs"],
    "all ranges over any ordered hashable endpoint type, all pickle protocols, all ways of copying",
    "Only int ranges are pickled in the tests, never unbounded ones, and equality/hash are checked on a handful of pairs.",
    [R],
    [("Range.__eq__/__hash__", R + ":575"), ("unbounded cut singletons", R + ":222")],
)
prop(
    "C04",
    "A mutable range set always equals the coalesced union of what was added",
    "After any history of adding ranges (one at a time, in bulk from a list, generator or another range set, through chained calls or through a builder) and clearing, the members of a range set are exactly the minimal list of non-empty, pairwise disconnected ranges covering the union of the ranges added since the last clear, in ascending order. Adding an empty range changes nothing, connected ranges always merge, and the result does not depend on the order or grouping of the additions. Its emptiness, length and spanning range always agree with that list, and the span of an empty set raises a ValueError.",
    ["histories"],
    "all sequences of add / add_all / clear / build calls with arbitrary ranges, in every order",
    "Tests try a few insertion sequences; coalescing depends on how each new range sits relative to every existing range, so only all histories up to a depth settle it.",
    [R],
    [("_MutableSortedDictRangeSet.add", R + ":1085"), ("add_all/clear", R + ":1125"), ("Builder", R + ":1160")],
    state=[("_ranges_by_lower_bound", "sorted map from lower bound to member range", R + ":905")],
)
prop(
    "C05",
    "Every range-set query agrees with a scan over its member ranges",
    "For any range set and any probe value or probe range, each query (membership, containing range, enclosing range, encloses, encloses_all, ranges enclosed by, ranges overlapping, intersects, rightmost range at or below a value, leftmost range at or above a value) returns what an exhaustive scan of the member ranges returns. 'Intersects' requires a non-empty range inside both, while 'ranges overlapping' lists every member whose intersection with the probe exists, even an empty one. Queries never change the set.",
    ["inputs", "histories"],
    "all reachable range sets (mutable and immutable, however built) x all probe values and probe ranges",
    "Each query uses its own binary-search arithmetic on a sorted map; tests probe a few hand-made sets and miss boundary positions (before first, between, after last, touching).",
    [R],
    [("binary-search queries", R + ":908"), ("_value_below/_value_at_or_below/_value_at_or_above", R + ":1400")],
)
prop(
    "C06",
    "Immutable range sets and maps are stable snapshots with value equality",
    "An immutable range set or map never changes after it is built, whatever later happens to the builder, mutable set or collection it came from. Range sets (mutable or immutable) are equal exactly when they have the same member ranges, and range maps exactly when they map the same ranges to the same values; equal ones hash equally, and neither is equal to an unrelated object. Pickling with any protocol, copying and deep-copying give an equal and independent object.",
    ["histories", "inputs"],
    "all interleavings of building, snapshotting and further mutation; all pairs of sets and maps reachable within the bound; all pickle protocols",
    "The tests never mutate the source after taking a snapshot, never hash, and pickle one bounded example.",
    [R],
    [("immutable_copy", R + ":1065"), ("RangeSet.__eq__/__hash__/__getstate__", R + ":775"), ("ImmutableRangeMap.__reduce__", R + ":1365")],
)
prop(
    "C07",
    "Range maps reject overlapping keys and look up exactly like a linear scan",
    "Building a range map (from pairs or with its builder) succeeds exactly when its distinct key ranges are non-empty and pairwise not connected, and otherwise raises a ValueError. In a map that was built, looking up a key gives the value of the range containing it and None when there is none, membership agrees with that, and the rightmost-at-or-below, leftmost-at-or-above and enclosed-by queries return the values a scan over all entries would give, including falsy values. The map's entries are exactly those it was given.",
    ["inputs"],
    "all collections of (range, value) pairs up to the bound, in every order, with distinct key ranges, x all probe keys and probe ranges",
    "Tests use one map; rejection and lookup depend on relative positions of all keys, on insertion order and on value truthiness.",
    [R],
    [("ImmutableRangeMap", R + ":1310"), ("immutablerangemap", R + ":1392")],
)
prop(
    "C08",
    "Span operations agree with the set of offsets the span covers",
    "For all spans, containment of an offset or another span, precedence, following, overlap, length, intersection, clipping, shifting, the corresponding closed range and the minimal enclosing span of any non-empty iterable agree with the set of offsets from the start (inclusive) to the end (exclusive). Operations with an empty result give None, and a span that is empty, inverted, or has non-integer offsets is refused with a ValueError or TypeError. The documented sort key orders spans by start and then longest first, and spans are values: equal exactly when start and end are equal.",
    ["inputs"],
    "all pairs of spans over any integer offsets, negative and large ones included; all iterables of spans",
    "Tests check five pairs of spans.",
    [S],
    [("Span", S + ":22")],
)
prop(
    "C09",
    "A span index returns exactly the items a scan over all items would return",
    "For any collection of items with spans and any query span, the exact-match, overlapping, contained and containing queries of a span index return exactly the items that satisfy the relation, whichever order the items were supplied in and whether they came in a list or a one-shot iterator. This holds both for the general index, which returns sets, and for the disjoint index, whose exact and containing queries give the single matching item or None. Building a disjoint index from different items whose spans overlap raises a ValueError and never drops an item.",
    ["inputs"],
    "all collections of items up to the bound (repeated spans, equal items at different spans, adjacent spans) x all query spans",
    "Tests index one collection; items that compare equal at different spans, adjacency and identical spans are never tried.",
    [S],
    [("_DisjointHasSpanIndex", S + ":215"), ("_OverLappingHasSpanIndex", S + ":255")],
)
prop(
    "C10",
    "Annotated text is well-nested markup that leaves the text unchanged",
    "For any text and any set of annotations that are nested or disjoint, in any order, removing the inserted tags yields the original text, tags are properly nested with every start tag matched by its end tag, and each annotation (label and attributes) encloses exactly the characters of its span. When the text is a snippet at given offsets of a larger one, annotations are clipped to the snippet, those wholly outside it are dropped, and offsets are interpreted relative to the larger text. A snippet whose declared length differs from the text's is refused with a ValueError.",
    ["inputs"],
    "all texts up to the bound, all sets of non-crossing annotations including several on the same span, all snippet offsets",
    "The test formats one sentence; tie-breaking among equal spans and clipping combinations are what can go wrong.",
    ["vistautils/annotated_text_utils.py"],
    [("tag ordering", "vistautils/annotated_text_utils.py:150"), ("clipping", "vistautils/annotated_text_utils.py:108")],
)
prop(
    "C11",
    "A zip key-value store returns exactly what was put, over any history",
    "Over any history of sessions writing to a zip key-value sink, a source opened afterwards reports as keys exactly the keys successfully put (since the last overwriting session began), and returns for each of them exactly the value put, by subscript, by get and by iteration with or without a key filter; any other key raises KeyError by subscript and gives None or the supplied default by get. In appending mode earlier entries survive and a later put of an existing key is refused, in overwriting mode earlier entries disappear, duplicate puts are always refused and change nothing. Custom file-name and key-list functions are honoured on both sides, and both sink and source refuse use outside their context.",
    ["histories", "inputs"],
    "all histories of sessions (overwrite/append) x puts over an alphabet of keys and values (empty values, unicode, path-like keys, falsy contents, any bytes), for text and binary stores; keys are non-empty, contain no line break and are not the reserved key-list entry name",
    "Tests write one small store once; multi-session histories, appends after appends, re-use of the same sink object and odd keys/values are not explored.",
    [KV],
    [("_ZipKeyValueSink", KV + ":459"), ("_ZipFileKeyValueSource", KV + ":585"), ("key list", KV + ":52")],
    state=[("__keys", "key list stored in the zip", KV + ":53")],
)
prop(
    "C12",
    "A failed or interrupted put never leaves a key without its value",
    "If a put on a zip key-value sink fails (a value of the wrong type, None, text that cannot be encoded, a file-name function that raises, an I/O error while writing the entry) or the body of the session raises, the exception reaches the caller, and closing the session still leaves a readable store. That store's key list contains exactly the keys whose put succeeded, each with its full value. After a failed put the same key can be put again in the session. A session whose key list cannot be read or written raises as well, and leaves a later session on the same path undisturbed.",
    ["fault_sequences", "histories"],
    "all histories of puts with a failure injected at every put position and by every failure kind, including failures of the underlying archive write",
    "No test makes a put fail.",
    [KV],
    [("_ZipKeyValueSink.put", KV + ":482"), ("_ZipKeyValueSink.__exit__", KV + ":515")],
)
prop(
    "C13",
    "Directory sinks and document-id file maps round-trip",
    "Writing entries to a directory-backed sink (text or binary) and reading them back through the index it leaves gives exactly the entries put, the last value winning when a key is put twice. Writing a mapping from document ids to files and reading it back gives the same ids with the same absolute paths, in sorted id order; a malformed line is refused with an IOError. A source built on a file map serves exactly the contents of the listed files, by subscript, get and iteration, raises KeyError for an unlisted id by subscript, and gives None or the supplied default for it by get.",
    ["inputs", "histories"],
    "all sequences of puts over an alphabet of keys and values, all small id-to-path maps; ids have no tab, line break or surrounding whitespace and are not the index name, and text has no carriage returns",
    "Directory sinks have one test through parameters; the map format is tested on one example.",
    [KV, IO],
    [("_DirectoryCharKeyValueSink", KV + ":397"), ("write/read_doc_id_to_file_map", IO + ":650")],
)
prop(
    "C14",
    "A tar.gz source yields each selected member exactly once, in archive order",
    "Iterating a tar.gz-backed source yields, in archive order, exactly one pair per regular file whose name passes the name filter, whose key (the name, or the result of the key function) is not None and passes the key filter, with the member's exact bytes (or its UTF-8 text). Iterating again, or running several iterators alternately, gives each iterator that same sequence. Interpreting the values of any source replaces each value by the function's result for its key and value and leaves keys, filters, absence and defaults unchanged.",
    ["inputs", "schedules"],
    "all archives up to the bound (files, directories, links, empty files), all filters and key functions in the alphabet, all interleavings of two iterators",
    "Tests read one archive once with one iterator.",
    [KV],
    [("TarGzipBytesLinearKeyValueSource.items", KV + ":711"), ("InterpretedLinearKeyValueSource/_InterpretedKeyValueSource", KV + ":745")],
)
prop(
    "C15",
    "Stores built from parameters read and write what the parameters describe",
    "Each of the source and sink factories driven by parameters opens the store that the parameters name: 'zip' a zip store at the path, 'file-map' (for a sink also 'directory') a directory or file-map store at the path, the name of a class or function that object, with extra modules imported and the caller's evaluation context available to that call only, and a file-map or directory store when no type is given. Text factories exchange text and binary factories exchange the identical bytes, under whatever namespace name the caller selects. An unknown type, an object of the wrong kind or a missing path raises an error instead of giving an empty or wrong store.",
    ["configurations"],
    "all combinations of factory x store type x namespace name x import/context use x valid or invalid path, against the same corpus",
    "Tests cover a few factory/type combinations, none for file maps without a type or for binary file maps.",
    [KV],
    [("*_from_params factories", KV + ":815"), ("special values", KV + ":805")],
)
prop(
    "C16",
    "Splitting a key-value store partitions it exactly",
    "Splitting a store into n slices writes n stores whose contents are pairwise disjoint, together equal the input byte for byte, and differ in size by at most one, with their paths listed in order in the slice list; the result is the same on every run with the same parameters. An explicit split writes to each output exactly the entries whose keys its key file lists, fails when a listed key is missing from the input, and fails when some input key is in no split unless exhaustiveness is switched off. Exactly one of the two modes must be requested.",
    ["inputs", "configurations"],
    "all store sizes and slice counts up to the bound (more slices than entries included), seeds, and all assignments of a small key set to splits including missing and omitted keys",
    "Tests split one store in one way per mode.",
    ["vistautils/scripts/split_key_value_store.py"],
    [("_split_into_even_slices", "vistautils/scripts/split_key_value_store.py:65"), ("_explicit_split", "vistautils/scripts/split_key_value_store.py:92")],
)
prop(
    "C17",
    "Joining stores is the disjoint union, and undoes a split",
    "Joining zip stores writes exactly the union of their entries, byte for byte, whatever their order, to the sink the parameters describe, and joining the slices of any split gives back the original store. If two inputs share a key the join fails with an error. Copying a directory of files into a store gives one entry per file, with the file name (or the name without its last extension, when asked) as key and the file's bytes as value. Files in sub-directories are stored likewise, or the directory is refused; they are never left out.",
    ["inputs", "configurations"],
    "all ways of distributing a small key set over up to three stores (with overlaps), all orders, all list-file layouts (blank lines, comments); all small flat directories",
    "Tests join one pair and copy one directory.",
    ["vistautils/scripts/join_key_value_stores.py", "vistautils/scripts/directory_to_key_value_store.py", "vistautils/scripts/split_key_value_store.py"],
    [("join main", "vistautils/scripts/join_key_value_stores.py:23"), ("directory main", "vistautils/scripts/directory_to_key_value_store.py:34")],
)
prop(
    "C18",
    "Converting a tar archive to zip keeps every regular file byte for byte",
    "Converting a plain or gzipped tar archive produces a zip named after the input with its .tar, .tar.gz or .tgz ending replaced by .zip, replacing any earlier file of that name. The zip contains exactly the archive's regular files under their names with identical bytes, whether or not the contents are streamed, whatever their names, permissions and the other members of the archive are; a repeated name stands for its last member. Apart from the result nothing is created, changed or removed. When large files are to be omitted, exactly those bigger than the cutoff are left out.",
    ["inputs", "configurations"],
    "all archives up to the bound (nested directories, empty files, links), every combination of the command-line switches, cutoffs around the member sizes, all file-name endings",
    "There is no test of the converter's output names, switches or directories.",
    ["vistautils/scripts/tar_gz_to_zip.py"],
    [("main", "vistautils/scripts/tar_gz_to_zip.py:45"), ("_output_name", "vistautils/scripts/tar_gz_to_zip.py:106")],
)
prop(
    "C19",
    "Text and byte sources and sinks reproduce content exactly",
    "Whatever is written through a character or byte sink (file, string, buffer, entry in a zip) is what a source over the same place returns, in one read, in pieces or by lines, every time it is read; a second write replaces the first. All source kinds (string, file, gzip, zip entry by path or open archive, tar.gz entry, wrapped bytes with an encoding) give the same text, lines and emptiness answer for the same content. A bounded byte read returns exactly the leading bytes requested, and the null sink accepts anything. Content that is not valid text in the stated encoding, or cannot be written in it, is refused and never altered.",
    ["inputs", "histories"],
    "all contents in the alphabet (empty, unicode incl. separators such as U+2028, trailing and repeated newlines, long content; carriage returns only for sources that do not read through a text file) x all source/sink kinds x encodings x write/read histories",
    "Tests read one sample file per kind.",
    [IO],
    [("CharSource/ByteSource kinds", IO + ":50"), ("CharSink/ByteSink kinds", IO + ":245")],
)
prop(
    "C20",
    "Parameters behave as the nested dictionary they were built from",
    "A parameters object built from nested mappings or from dotted key-value pairs answers every dotted lookup, membership test, namespace query and listing exactly as the nested dictionary does, converts back to an equal nested dictionary, and lists each leaf exactly once under its full dotted name. A lookup through a leaf or of an absent name raises a parameter error, or gives the default or None in the optional forms; names containing the separator are refused as keys. Building or querying never changes the input or the object, so equal content gives equal objects.",
    ["inputs"],
    "all nested dictionaries up to the bound with an alphabet of names and values (falsy values, lists, odd characters), x all dotted paths over those names",
    "Tests use one or two fixed parameter trees.",
    [PA],
    [("Parameters.from_mapping/_private_get", PA + ":100"), ("namespaced_items/as_nested_dicts", PA + ":165"), ("from_key_value_pairs", PA + ":133")],
)
prop(
    "C21",
    "Unifying parameters is a right-biased deep merge",
    "Unifying two parameter sets gives exactly the recursive merge: every leaf of either side is present, the new side wins on a conflict, namespaces merge, and list or falsy values are replaced whole. A name that is a leaf on one side and a namespace on the other raises an IOError. Neither operand is changed, unifying with an empty set changes nothing, and successive unifications give the same result however they are grouped, with every leaf still listed under its own dotted name.",
    ["inputs"],
    "all pairs and triples of parameter trees up to the bound (None excluded as a value), given as parameters objects or as plain mappings, at the root or taken from a namespace",
    "Tests unify two fixed pairs.",
    [PA],
    [("Parameters.unify", PA + ":193")],
)
prop(
    "C22",
    "Objects are built from parameters by the documented precedence",
    "A parameter evaluated as code, or used to build an object, yields: the evaluated or special value for a string or a value entry; otherwise the factory named by the factory entry (or by a special-factory shortcut), called with that namespace; otherwise the default value; otherwise the default factory. A factory that is a class is used through its from-parameters method if it has one and otherwise constructed without arguments, a callable is called with the namespace (which carries its full name), and names of objects in importable packages or in listed imports are resolved in the given context. A result of the wrong type, a failing expression, both a value and a factory, or nothing at all raises an error.",
    ["configurations"],
    "all combinations of parameter shape x value/factory/neither/both x special values/factories x defaults x context/imports x expected type x nesting depth",
    "Tests cover about a dozen of several hundred combinations; no test uses special factories with a string or defaults with an untyped namespace.",
    [PA, "vistautils/misc_utils.py"],
    [("object_from_parameters", PA + ":945"), ("evaluate", PA + ":840"), ("eval_in_context_of_modules", "vistautils/misc_utils.py:38")],
)
prop(
    "C23",
    "Interpolation substitutes every placeholder by the right final value",
    "Loading YAML parameters replaces every placeholder in a string value, at any nesting depth and in any order of definition, by the fully interpolated value of the named parameter, preferring the file itself, then the included context, then the environment; a value that is just one placeholder takes the referenced value with its type, falsy values included. Cycles, unknown names and a non-string embedded in a longer string make the load fail, and values without placeholders, keys, and list elements are left alone. The environment itself never appears in the result and is ignored when its use is switched off.",
    ["inputs", "configurations"],
    "all dependency graphs over a few parameters (nested and flat, every definition order, cyclic ones included) x placement of the referenced names (file, context, environment, nowhere) x value types",
    "Tests interpolate a few fixed files; the outcome depends on the whole dependency graph and the order of definition.",
    [PA, "vistautils/_graph.py"],
    [("YAMLParametersLoader._interpolate", PA + ":1535"), ("topological_sort", "vistautils/_graph.py:77")],
)
prop(
    "C24",
    "Included parameter files are merged in order with later files winning",
    "Loading a file with includes gives the merge, in order, of the supplied context, each included file (recursively) and the file itself, later ones overriding earlier ones leaf by leaf; the include directive itself does not appear in the result. Each file can interpolate from everything loaded before it, and relative includes are resolved against the directory of the file that names them wherever the process runs. Missing includes, malformed or non-mapping YAML, non-string keys at any depth, and relative includes when loading from a string make the load fail with an IOError.",
    ["inputs", "configurations"],
    "all include graphs over up to four files in nested directories (chains, diamonds, repeated), with overlapping parameters and cross-file placeholders, x load from file/string x working directory",
    "Tests have one include chain.",
    [PA],
    [("YAMLParametersLoader._inner_load_from_string", PA + ":1455")],
)
prop(
    "C25",
    "Writing parameters as YAML and loading them again gives them back",
    "Writing any parameters to a file or sink and loading the result gives parameters with the same nested content, the same value types and the same order of names, and printing parameters gives text that loads to the same content. This covers strings of every kind (those that look like other YAML types, multi-line, unicode, very long), numbers, booleans, nulls, dates, lists and nested lists and mappings. Paths come back as their string form, tuples as lists, values of types derived from these (such as string enumerations) as the plain value, and bytes are refused with an error.",
    ["inputs"],
    "all parameter trees up to the bound over a wide value alphabet (placeholders and a top-level include directive excluded)",
    "Tests write one tree.",
    [PA],
    [("YAMLParametersWriter", PA + ":1725")],
)
prop(
    "C26",
    "Path accessors create, require and delete only what they are allowed to",
    "For every state of the file system, the accessor for an existing file or directory succeeds exactly when the path is one of that kind and changes nothing; the creatable accessors create exactly the missing directories needed and never alter existing content; the empty-directory accessor empties a non-empty directory only when deletion was requested and otherwise raises a parameter error leaving everything as it was. A path that exists as the wrong kind is an error and is left intact. Nothing outside the named path is ever removed, results are absolute resolved paths, and the optional forms give None exactly when the parameter is absent.",
    ["inputs", "histories"],
    "all accessor x file-system-state combinations (absent, file, empty/non-empty directory, links, missing parents, relative paths, siblings), and sequences of two accessors",
    "Tests cover around a dozen states and never check that siblings survive.",
    [PA],
    [("creatable_*/existing_* accessors", PA + ":258")],
)
prop(
    "C27",
    "Typed accessors return a value of the promised type or fail",
    "Every typed accessor (string with options, integer, positive integer, floating point with range, boolean, enumeration, list, namespace, generic get) returns the stored value exactly when it is present with the right type and inside the stated range or options, and raises a parameter error otherwise. An absent parameter gives the default when one is supplied, falsy defaults included, in both plain and optional forms; without one the plain form raises a parameter error and the optional form gives None. The exactly-one-present check passes exactly when one of the names is present.",
    ["inputs"],
    "all accessors x stored values of every type (and absence) x defaults (falsy ones included) x ranges/options, at top level and nested",
    "Tests check a few accessor/value pairs; falsy values and defaults are the cases they leave out.",
    [PA],
    [("typed accessors", PA + ":438"), ("get/get_optional", PA + ":1110")],
)
prop(
    "C28",
    "An entry point runs with the file's parameters overridden by the command line",
    "A parameters-only entry point calls the main method exactly once, with the parameters of the given file (or those supplied by the program) in which each command-line override, dotted names included, replaces or adds exactly that parameter and later overrides win. Logging is configured to the level the parameters ask for (INFO by default) or as the configuration file they name says, for loggers made before and after alike, the parameters are logged, and an invalid level is an error before the main method runs. Missing or superfluous arguments end the program with a usage error without calling the main method.",
    ["inputs", "configurations"],
    "all argument lists up to the bound (zero to three overrides of flat and nested names, in any position relative to the file) x file or supplied parameters x logging levels",
    "Tests run one file with one or two overrides.",
    ["vistautils/parameters_only_entrypoint.py", "vistautils/logging_utils.py"],
    [("parameters_only_entry_point", "vistautils/parameters_only_entrypoint.py:15"), ("configure_logging_from", "vistautils/logging_utils.py:27")],
)
prop(
    "C29",
    "Iteration helpers equal their slice definitions, lazily and re-iterably",
    "Dropping n elements, sliding windows (complete only, or with the partial windows at the end), pairs of neighbours, filtering out None and extracting the only element give exactly what the corresponding slices of the sequence give, for every length, parameter and element value, None and falsy elements included. Given an iterable the drop and window results can be iterated repeatedly and concurrently; given an iterator they consume it lazily and no further than needed. Negative drop counts, window sizes below one, and not exactly one element are refused with an error.",
    ["inputs", "schedules"],
    "all sequences up to the bound over an alphabet with None, falsy and equal-to-everything elements x all counts and sizes x list/iterator/generator inputs x all interleavings of two iterations",
    "Tests use a few short integer lists.",
    ["vistautils/iter_utils.py", "vistautils/iterutils.py", "vistautils/collection_utils.py"],
    [("drop/only/windowed", "vistautils/iter_utils.py:32"), ("get_only", "vistautils/collection_utils.py:8")],
)
prop(
    "C30",
    "Checkpoints remember exactly the names set since the last reset, across restarts",
    "At every point of any history of setting checkpoints, resetting and re-opening the same directory (by path or string, through one or several objects), a name is reported as done exactly when it was set after the last reset. Setting a name twice is harmless, re-opening never loses anything, and the directory is created with its parents when missing. Nothing outside the directory is touched, and names that are not strings are refused with a TypeError.",
    ["histories", "crash_points"],
    "all histories of set / reset / re-open / query over a few names up to the bound, with a process restart possible after every step",
    "Tests run one short history.",
    ["vistautils/checkpoints.py"],
    [("_CheckPointDirectory", "vistautils/checkpoints.py:42")],
)
prop(
    "C31",
    "Memory amounts parse exactly the documented forms to the right amount and unit",
    "A string consisting of a positive decimal integer, an optional space, one of the unit letters K, M, G, T in either case and an optional B in either case parses to that amount and unit. Every other string, including ones with leading or trailing text, raises an error rather than giving an amount. Unit letters alone parse to their unit in either case, and an amount below one cannot be constructed.",
    ["inputs"],
    "all strings up to a length bound over an alphabet of digits, unit letters, spaces and other characters",
    "Tests parse a handful of strings.",
    ["vistautils/memory_amount.py"],
    [("MemoryAmount.parse", "vistautils/memory_amount.py:62"), ("MemoryUnit.parse", "vistautils/memory_amount.py:24")],
)
prop(
    "C32",
    "Precondition checks and small utilities accept and reject exactly as documented",
    "Each precondition helper returns its input (where it has one) exactly when its condition holds and raises its documented error type otherwise, falsy values included. The small utilities (string with length limit, extension stripping, one-level flattening, path conversion, fully qualified names, evaluation in a module context that leaves the caller's context untouched) equal their one-line specification for every input. The id and score wrappers refuse missing items, empty or non-string ids and non-float scores.",
    ["inputs"],
    "all helper x value combinations over an alphabet of values (None, falsy, nested, unicode) and all list sizes around the limit",
    "Tests sample a few truthy values.",
    ["vistautils/preconditions.py", "vistautils/misc_utils.py", "vistautils/class_utils.py"],
    [("checks", "vistautils/preconditions.py:15"), ("utilities", "vistautils/misc_utils.py:10"), ("fully_qualified_name", "vistautils/class_utils.py:6")],
)
prop(
    "C33",
    "List, map, line-set and pickle files are read entry for entry",
    "Reading a path list (from a file, or given directly as a list), a tab-separated map of keys to paths, a set of file lines, or a pickled object gives exactly the entries of the file in file order, with blank lines and comment lines skipped where documented, surrounding whitespace of paths removed, and relative entries resolved against the requested directory and absolute ones kept. A malformed map line is refused with an IOError, and a list, map or parameter file which is not UTF-8 text makes the reading call raise. Printing the text at given offsets of a UTF-8 file prints exactly those code points.",
    ["inputs"],
    "all files of up to a few lines over an alphabet of lines (blank, comment, padded, unicode, absolute, relative, malformed, with or without a final newline) x resolution directory; all offset pairs of small texts",
    "Tests read one file of each kind.",
    [PA, IO, "vistautils/scripts/text_at_offsets.py"],
    [("path_list_from_file/path_map_from_file/pickled_object_from_file", PA + ":1192"), ("file_lines_to_set", IO + ":635"), ("text_at_offsets", "vistautils/scripts/text_at_offsets.py:18")],
)

prop(
    "C34",
    "Attribute helpers validate, convert and default each instance on its own",
    "A class whose attribute is made by one of the attribute helpers accepts exactly what the helper promises: the instance-of helpers keep a value of the given type (or of one of the given types) unchanged and refuse any other with a TypeError, None being accepted only by the optional ones, which default to None; defaults that are given are used and checked alike. The collection helpers convert what they are given to an equal immutable collection of the given type that later changes to the argument do not affect, and the optional one turns None or nothing into an empty collection. Factory and builder attributes are made afresh for each instance, a builder attribute is not a constructor argument, and a type that is not an immutable collection is refused with a ValueError. The non-empty validator refuses every empty value and only those.",
    ["inputs", "histories"],
    "all combinations of helper x type x default x value; all short element sequences; all assignments of additions to up to a few instances",
    "Tests build a few classes with one value each.",
    ["vistautils/attrutils.py"],
    [("attrib_instance_of/attrib_opt_instance_of", "vistautils/attrutils.py:18"), ("attrib_immutable/attrib_opt_immutable", "vistautils/attrutils.py:56")],
)

prop(
    "C35",
    "Sources, sinks, stores and scripts release every file they open",
    "Once a reader, writer, source or sink has been closed or its context left - at the end, early, after a partial read or an abandoned iteration, or because the body, a filter or a put raised - none of the files it opened stays open, even while the objects are still referenced. Every call that reads or writes in one go (reading and writing parameters, lists, maps and pickles, emptying directories, splitting, joining, downsampling, copying and converting stores) likewise leaves no file open, whether it succeeds or fails. Making a source or a store opens nothing, closing one of two readers leaves the other usable, and an archive the caller opened stays open.",
    ["histories", "fault_sequences"],
    "all short sequences of uses of every kind of source, sink and store, failing ones included, and every call that opens files; the open descriptors of the process are compared after every step with garbage collection off",
    "Tests never count open files.",
    [IO, KV, PA, "vistautils/scripts/"],
    [("CharSource/ByteSource/ByteSink close", IO + ":370"), ("zip and tar stores' __exit__", KV + ":637"), ("TarGzipBytesLinearKeyValueSource.__exit__", KV + ":760")],
)
prop(
    "C36",
    "Downsampling a store keeps exactly the requested number of its entries",
    "Downsampling a key-value store writes a zip store holding exactly the requested number of entries of the input (or all of them when there are fewer), each under its key with identical bytes, and leaves the input unchanged. Which entries are kept, and the order in which they are written, depends only on the store's entries, the number and the random seed (0 when none is given), not on the run, the process or the order in which the store lists its keys, and every entry can be selected. A number to sample that is missing, not an integer or below one, a missing input or an unusable output is an error.",
    ["inputs", "configurations"],
    "all stores of a few entries x sample sizes x seeds x kinds of store, all orders of the keys, processes with other hash seeds",
    "The only test of it samples two entries once (and fails with the installed Python on the original tree).",
    ["vistautils/scripts/downsample_key_value_store.py"],
    [("main", "vistautils/scripts/downsample_key_value_store.py:33")],
)

prop(
    "C37",
    "Values and open sources can be read by several threads at once",
    "Ranges, spans, immutable range sets and maps, span indices, Parameters, parameter loaders and writers, annotation formatters, character and byte sources, and opened zip, file-map and interpreted key-value sources can be shared by threads that only read them (look up, query, iterate, open and read, load, compare, hash, print): however the threads are interleaved, each gets exactly what it would get alone, or the same kind of error, and values built by different threads at the same time do not affect each other. Tar sources, mutable range sets and sinks are outside.",
    ["schedules", "inputs"],
    "every interleaving, at the level of lines and of bytecodes of the library, of every two (and some three) reading operations on every kind of shared value, up to a preemption bound",
    "Every test uses one thread.",
    [R, "vistautils/span.py", PA, IO, KV, "vistautils/annotated_text_utils.py"],
    [("_SortedDictRangeSet queries", R + ":922"), ("Parameters", PA + ":57"), ("YAMLParametersLoader.load", PA + ":1467"), ("_ZipFileKeyValueSource", KV + ":584"), ("CharSource", IO + ":43")],
)
prop(
    "C38",
    "Jobs can prepare files and directories at the same time",
    "Jobs that run at the same time and ask for creatable or existing directories and files, for creatable empty directories (without deleting), for checkpoint directories or for file sinks, on the same or on nested or neighbouring paths, affect each other no more than if they had run one after the other in some order: each request succeeds or fails as in that order and the files and directories left behind are those of that order. In particular no request fails because another job creates a directory it was about to create itself. Deleting requests and two jobs that write the same file are outside.",
    ["schedules"],
    "every interleaving of the file-system calls of every two (and some three) requests on nested paths, from several initial trees, up to a preemption bound",
    "Every test runs one request at a time.",
    [PA, IO, "vistautils/checkpoints.py"],
    [("creatable_directory/creatable_empty_directory/creatable_file", PA + ":253"), ("CharSink.to_file/ByteSink.to_file", IO + ":273"), ("Checkpoints.from_directory", "vistautils/checkpoints.py:26")],
)

prop(
    "C39",
    "A write that fails is never taken for a success",
    "Whenever something written through vistautils cannot be written completely - the disk fills up at whichever byte, a file reaches its size limit, or whichever opening, creating, renaming or removing call fails, for good or just once - the call or the context that wrote it raises; if it returns normally, everything it was asked to write can be read back. This covers character and byte sinks to files and zip entries, zip and directory key-value sinks, document-id maps, parameter files, checkpoints, the creatable directories and files of Parameters, and the splitting, joining, downsampling, copying and converting scripts. Inputs and other files are unchanged either way.",
    ["fault_sequences"],
    "every byte written and every changing file-system call of each kind of writing call, failing once or from then on, with large and small buffers, and every size limit enforced by the kernel",
    "No test makes a write fail.",
    [IO, KV, PA, "vistautils/checkpoints.py", "vistautils/scripts/"],
    [("_FileCharSink/_FileByteSink/_FileInZipByteSink", IO + ":577"), ("_ZipKeyValueSink and directory sinks", KV + ":400"), ("YAMLParametersWriter.write", PA + ":1806")],
)
prop(
    "C40",
    "Work that was cut short can be done again",
    "If a call that writes is cut short at any point - the process is killed between any two bytes written or file-system calls, or one of them fails - doing the same work again succeeds and leaves exactly what an undisturbed run leaves in its output, whether in a new process or, after a failure, through the same objects; the inputs are unchanged throughout. This covers character and byte sinks to files, zip key-value sinks that overwrite, document-id maps, parameter files, checkpoints, creatable and emptied directories, and the scripts. A checkpoint that was set stays set when the process is killed while another is being set, and none appears that was not asked for. Sinks which add to an existing archive or want an empty directory are outside.",
    ["crash_points", "fault_sequences"],
    "every byte written and every changing file-system call of each kind of writing call as the point at which the process is killed or the call fails, followed by a repetition (thorough: which is itself killed at every point)",
    "No test interrupts anything.",
    [IO, KV, PA, "vistautils/checkpoints.py", "vistautils/scripts/"],
    [("_CheckPointDirectory", "vistautils/checkpoints.py:43"), ("_ZipKeyValueSink.__enter__", KV + ":496"), ("CharSink.to_file", IO + ":273"), ("tar_gz_to_zip.main", "vistautils/scripts/tar_gz_to_zip.py:43")],
)
prop(
    "C41",
    "Damaged or unreadable input is refused, never read as something else",
    "A zip, tar.gz or gzip file that was cut off at any byte, and a zip or gzip file in which any byte was changed, either still yields exactly its original content or makes the call that reads it raise: no source, key-value source, get with a default or script silently reads less or something else. Likewise, whichever opening, reading or directory listing fails while a source, store, list, map, pickle, parameter file or script input is read, for good or just once, the call raises or gives the complete result. Changed bytes in tar archives, an empty file in place of a gzip file, plain tar files, and what a caller does not read are outside.",
    ["fault_sequences", "inputs"],
    "every truncation of small archives and every changed byte (large archives: those near the ends and at regular steps), every access of every reading call failing with two errors, once or from then on",
    "No test reads a damaged archive or lets a read fail.",
    [IO, KV, PA, "vistautils/scripts/"],
    [("_GZipFileSource/_FileWithinTgzCharSource/_ByteSourceFromPathInZipFile", IO + ":205"), ("_ZipFileKeyValueSource/TarGzipBytesLinearKeyValueSource", KV + ":584"), ("directory_to_key_value_store.main", "vistautils/scripts/directory_to_key_value_store.py:34")],
)

prop(
    "C42",
    "Values compare by content, never change, and survive copying and pickling",
    "Spans, annotated spans, memory amounts, parameters, ranges, immutable range sets and range maps are values: two of them are equal exactly when their content is, equal ones hash equal, and nothing assigns to or deletes what they hold. Copying, deep-copying or pickling one (any protocol, any number of times) gives an equal value that answers every query the same; a copied or pickled description of a source, sink, path-mapping store or span index does what the original does. None of them, nor a store of paths, changes when the mapping or list it was made from is changed later (lists that are parameter values are shared, and outside).",
    ["histories", "inputs"],
    "all pairs of values of 7 kinds, all sequences of copies, all histories of changes of the inputs",
    "Tests pickle a few ranges and range sets and compare a few values.",
    [R, S, "vistautils/annotated_text_utils.py", PA, "vistautils/memory_amount.py", IO, KV],
    [("Span", S + ":23"), ("AnnotatedSpan", "vistautils/annotated_text_utils.py:26"), ("MemoryAmount", "vistautils/memory_amount.py:54"), ("Parameters", PA + ":57"), ("Range.__eq__/__hash__, RangeSet.__getstate__, ImmutableRangeMap.__reduce__", R + ":590")],
)

prop(
    "C43",
    "Files in the documented formats are exchanged with other programs",
    "What vistautils writes, programs which know only the documented format read, and the other way round. A zip key-value store is a zip file with one entry per key, named by the filename function and holding exactly the value (text as UTF-8), and a `__keys` entry listing the keys one per line; any zip file like that is read as such a store and added to, whatever its compression, the place of `__keys`, further entries, comments and other features of zip files; without `__keys` the keys are unknown and look-ups work. Any gzip file and any tar archive (ustar, GNU, pax, gzipped or not) of regular files is read with the content other programs would extract. Parameters are loaded from every notation YAML has for them (block, flow, JSON, quoted, folded, anchored, merged, CRLF, byte order mark), with YAML's meaning of the values, and written as YAML documents of the same content. File maps are `key<TAB>path` lines, written sorted with absolute paths; a directory store is one file per key and such a map in `_index`; `_slices.txt` lists one path per line. Duplicate or blank keys, a line end after the last key in `__keys`, and line ends within texts (C19) are outside.",
    ["inputs", "histories"],
    "every combination of up to 2 (thorough: all) of 8 features of zip files with 4 compressions and 4 places of the key list, members, levels, headers and paddings of gzip files, 3 tar formats with 9 awkward names, 17 notations of parameters and 58 of values, all pairs of 49 written values, small maps and directories in every order",
    "Tests read back with vistautils what vistautils wrote, and load a few hand-written parameter files in block style.",
    [KV, IO, PA, "vistautils/scripts/"],
    [("_read_keys_from_keys_file/_write_keys_to_keys_file", KV + ":47"), ("_ZipFileKeyValueSource", KV + ":593"), ("_GZipFileSource/_FileWithinTgzCharSource", IO + ":205"), ("YAMLParametersLoader/YAMLParametersWriter", PA + ":1500"), ("write_doc_id_to_file_map/read_doc_id_to_file_map", IO + ":650")],
)

prop(
    "C44",
    "The guarantees hold in every process, however it was started",
    "Nothing vistautils guarantees depends on the process it runs in: not on the hash seed (in whatever order sets of strings are gone through), not on Python's optimisation (`-O`, `-OO`: arguments are still checked) or development mode, not on the default text encoding (everything is UTF-8 unless asked for otherwise), the time zone, the umask, when the garbage collector runs, or whether HOME and the like are set. In each such process values, range sets, spans, markup, parameters, key-value stores, files and scripts behave as their own properties (C01-C36, C43) say. The order in which a zip store lists its keys is outside.",
    ["configurations", "inputs"],
    "all 24 iteration orders of a set of four names, each of 10 deviations of the process alone and 6 combinations (thorough: every two together), and in each whole spaces of cases of the other properties",
    "Tests run in a single process with whatever hash seed it happens to have, never optimised, in one encoding and time zone.",
    [R, S, "vistautils/annotated_text_utils.py", PA, KV, IO, "vistautils/iter_utils.py", "vistautils/preconditions.py", "vistautils/scripts/"],
    [("check_arg/check_not_none/check_isinstance", "vistautils/preconditions.py:32"), ("file_lines_to_set", IO + ":637"), ("CharSink.to_file/CharSource.from_file", IO + ":180"), ("_split_into_even_slices", "vistautils/scripts/split_key_value_store.py:58"), ("Digraph", "vistautils/_graph.py:43")],
)

prop(
    "C45",
    "Calls leave the process as they found it",
    "Apart from the files it is asked for, its result and the modules it imports, no call of vistautils, whether it succeeds or fails, changes the process it runs in: not the working directory, the environment, the umask, the locale or time zone, the state of Python's random numbers, the filters of warnings, the configuration of logging (which only the entry point and configure_logging_from set), signal handlers, limits, the interpreter's settings and hooks, sys.argv and sys.path, the standard streams, the garbage collector, threads and child processes, the defaults of the decimal, csv and socket modules, what YAML and pickle are registered to read and write, or functions of other modules. It leaves no temporary files (where they can be removed), nothing in the working directory or the home, and library calls print nothing.",
    ["inputs", "faults", "histories"],
    "186 calls once and twice, every operation on 25 kinds of value, and 106 calls with every one of their effects or accesses failing, each in a process as it starts and in one where all these settings were changed",
    "No test looks at the state of the process after a call.",
    [PA, KV, IO, "vistautils/misc_utils.py", "vistautils/logging_utils.py", "vistautils/parameters_only_entrypoint.py", "vistautils/scripts/"],
    [("_split_into_even_slices", "vistautils/scripts/split_key_value_store.py:58"), ("Parameters._warn_about_default/path_list_from_file", PA + ":1240"), ("YAMLParametersLoader", PA + ":1450"), ("eval_in_context_of_modules", "vistautils/misc_utils.py:40"), ("tar_gz_to_zip.main", "vistautils/scripts/tar_gz_to_zip.py:40")],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

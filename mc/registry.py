"""Per-property metadata used for the evidence files and the manifest."""
META = {}


def _m(pid, technique, note, level="model_checking", assumptions=()):
    META[pid] = {
        "technique": technique,
        "level": level,
        "level_note": note,
        "assumptions": [
            "CPython 3.12 with the installed attrs, immutablecollections, sortedcontainers, PyYAML, zipfile and tarfile behave as specified",
            "values outside the stated alphabets and structures beyond the stated bounds are not explored",
        ]
        + list(assumptions),
    }


_m("C01", "bounded exhaustive exploration against a reference model",
   "Every endpoint pair, kind and probe over finite alphabets of 11 ordered types; exact for code that only compares endpoints.")
_m("C02", "bounded exhaustive exploration against a reference model (all pairs and triples of ranges)",
   "All pairs and triples of ranges over few endpoints; exact for code that only compares endpoints.")
_m("C03", "bounded exhaustive exploration against a reference model (every clone operation on every range)",
   "Every range over few endpoints, cloned by copy, deepcopy and each pickle protocol, compared in every query.")
_m("C04", "explicit-state model checking to fixpoint, every transition replayed on the real class, plus all short histories",
   "All range sets over n endpoints and every add/clear from each; sets differing only in hidden state are covered by 4 routes to each state and by all undeduplicated short histories.")
_m("C05", "explicit-state model checking: every query in every reachable state against a scan",
   "All range sets over n endpoints, every probe; ladders with many members.")
_m("C06", "bounded exhaustive exploration of snapshot histories, pairs and clone operations",
   "All snapshot histories to a depth; all pairs of sets/maps over few endpoints; every pickle protocol.")
_m("C07", "bounded exhaustive exploration against a linear-scan model",
   "All key choices over few endpoints and all maps keyed by disjoint runs; keys given twice are outside the property's model.")
_m("C08", "bounded exhaustive exploration against sets of offsets", "All spans and pairs in a window, and large ones.")
_m("C09", "bounded exhaustive exploration against a scan over all items",
   "All item sequences up to 3 (thorough 4) over all spans of a 5-offset text, every query.")
_m("C10", "bounded exhaustive exploration with a parser of the markup as oracle",
   "All nested-or-disjoint annotation sequences on short texts and snippets; crossing annotations are outside the property.")
_m("C11", "bounded exhaustive exploration of session histories against a dictionary model",
   "All histories of up to 3 sessions over colliding keys, all pairs of unusual keys; file-name functions that map two keys to one name are outside the property.")
_m("C12", "exhaustive fault injection at every put of every short session",
   "Every kind of fault at every put; faults inside the writing of zip headers or of the key list itself are not injected.",
   level="fault_enumeration")
_m("C13", "bounded exhaustive exploration of put histories, file maps and sources against dictionary models",
   "All short put sequences, all small file maps and line sequences.")
_m("C14", "bounded exhaustive exploration of archives, filters and iterator interleavings",
   "All orders of a few members of every kind under every filter; all interleavings of two iterators over small archives.")
_m("C15", "bounded exhaustive exploration of configurations against a dictionary model",
   "Every factory with every way of describing a store, valid or not, over a few corpora.")
_m("C16", "bounded exhaustive exploration of stores, splits and key orders against a partition model",
   "All small stores and slice counts, all orders in which a store may list its keys, all assignments of a few keys to two splits.")
_m("C17", "bounded exhaustive exploration of distributions of keys against the union",
   "All distributions of three keys over three stores, every order; sub-directories of a copied directory are outside the property.")
_m("C18", "bounded exhaustive exploration of archives, names and switches",
   "All small archives of 12 kinds of members; members repeated in one archive are not explored.")
_m("C19", "bounded exhaustive exploration of contents, kinds of source and write histories",
   "All short texts over an alphabet with awkward characters, through every kind of source and sink.")
_m("C20", "bounded exhaustive exploration of nested dictionaries and paths against a nested dictionary",
   "All small trees and paths; parameters with the value None are not explored.")
_m("C21", "bounded exhaustive exploration of pairs and triples of trees against a recursive merge",
   "All pairs and triples of small trees; parameters with the value None are not explored.")
_m("C22", "bounded exhaustive exploration of configurations against the documented precedence",
   "All combinations of shape, defaults, context, nesting and expected type over fixed sets of expressions and factories.")
_m("C23", "bounded exhaustive exploration of dependency graphs against a recursive interpolator",
   "All assignments of placeholders, text, falsy and non-text values to three names in every order of definition; placeholders that look inside a leaf and parameters with the value None are not explored.")
_m("C24", "bounded exhaustive exploration of include graphs against a recursive merge",
   "All include graphs of three files over 8 contents, of four files over fewer; symbolic links are not explored.")
_m("C25", "bounded exhaustive exploration of parameter trees, each written and loaded again",
   "All short texts over 30 awkward characters as values and names, all text lengths around the line width, all small trees; times with a time zone are not explored.")
_m("C26", "bounded exhaustive exploration of file-system states and accessor histories against a file-system model",
   "Every accessor on every kind of path, in every spelling, and all sequences of two (thorough three), directories that cannot be written or read among them; concurrent requests are the matter of C38.")
_m("C27", "bounded exhaustive exploration of accessors, values, defaults and ranges against their specification",
   "Every accessor with every value at every place; defaults outside the stated options or ranges, booleans read as integers and None are not explored.")
_m("C28", "bounded exhaustive exploration of argument lists, files and logging configurations",
   "All sequences of up to three overrides at every place; overrides that contradict each other and override values starting with a dash are not explored.")
_m("C29", "bounded exhaustive exploration of sequences, parameters and iterator interleavings against slices",
   "All short sequences over awkward elements, all interleavings of two iterations, consumption counted after every step.")
_m("C30", "bounded exhaustive exploration of histories against a set of names, with a restart after any step",
   "All short histories through two objects; a restart loads the module afresh, it does not start a process; names that are not legal file names are not explored.")
_m("C31", "bounded exhaustive exploration of strings against a hand-written recogniser",
   "All strings to a length over an alphabet of digits, unit letters, spaces and other characters.")
_m("C32", "bounded exhaustive exploration of values and helpers against their documented conditions",
   "All pairs of values and classes from fixed alphabets, all sizes around the limit, all short names.")
_m("C33", "bounded exhaustive exploration of small files against a line-by-line reader",
   "All files of a few lines over an alphabet of awkward lines; unusual line separators and duplicate keys are not explored.")
_m("C34", "bounded exhaustive exploration of helpers, types, defaults and values, and of additions to several instances",
   "All combinations over fixed alphabets of types and values; extra attrs arguments other than a default are not explored.")
_m("C35", "bounded exhaustive exploration of uses and faults, with the open descriptors of the process compared after every step",
   "Every kind of source, sink, store and call with every use, failing ones included; descriptors are counted in the process, garbage collection switched off.")
_m("C36", "bounded exhaustive exploration of stores, sample sizes, seeds and key orders against a subset model",
   "All small stores, sample sizes and a few seeds, all orders in which a store may list its keys, other hash seeds; that the selection is random beyond each entry being selectable is outside.")
_m("C37", "systematic exploration of all interleavings under a controlled scheduler, against what each thread gets alone",
   "Two or three real threads switched only at lines (or bytecodes) of the library's code, up to a preemption bound; switches inside other libraries and threads that write are not explored.")
_m("C38", "systematic exploration of all interleavings under a controlled scheduler, against the outcomes of all serial orders",
   "Two or three jobs on real threads of one process, switched only at their file-system calls, up to a preemption bound; crashes and deletions meanwhile are not explored.",
   level="model_checking")
_m("C39", "exhaustive fault injection: every byte and every file-system call of every writing call fails once, or from then on",
   "Faults at every byte written through Python's files and at every creating, changing or removing call, and every limit on file sizes enforced by the kernel; failing closes and failing synchronisation are not explored.",
   level="fault_enumeration")
_m("C40", "exhaustive crash injection: the process is killed, or a call fails, at every byte and every file-system call, and the work is done again",
   "Every fault point of a single run (thorough: of two in a row for small calls) of every writing call; what the operating system itself loses in a power failure is not explored.",
   level="fault_enumeration")
_m("C41", "exhaustive fault injection: every truncation and every changed byte of archives, every read, opening and listing failing",
   "Every truncation and changed byte of small archives, every access of every reading call failing; several changed bytes at once, changed bytes in tar archives (whose checksum tarfile does not look at) and failing stats are not explored.",
   level="fault_enumeration")
_m("C42", "bounded exhaustive exploration of values, their copies and what they were built from, against plain data",
   "Every pair of values of 7 kinds, every sequence of up to 2 (thorough 3) of 8 ways of copying, every history of changes of the inputs up to 3 (thorough 5); values of other content are assumed to behave alike.")
_m("C43", "bounded exhaustive exploration of documents, archives and stores of the documented formats, exchanged with readers and writers which are not vistautils",
   "Every combination of the listed features of zip, gzip and tar files, 17 notations of parameters and 60 of values in every form and way to load them, every small store, directory, map and parameter document read with zipfile and PyYAML alone; features of the formats which are not listed, and other readers and writers than Python's, are not explored.")
_m("C44", "bounded exhaustive exploration of whole spaces of other checks in processes of every kind: all iteration orders of a set of names, all ways of starting the process",
   "All 24 iteration orders of a set of four names, each way of starting the process alone and 6 combinations (thorough: every two of them); other orders of larger sets, other platforms and Python versions are not explored.")
_m("C45", "exhaustive exploration of calls, values and fault points, with a picture of the whole process compared before and after each",
   "186 calls once and twice (thorough: three times), every operation on 25 kinds of value, every write, change, read, opening and listing of 106 calls failing, in 2 initial states of the process; settings of the process which the picture does not hold, and calls not in the lists, are not explored.",
   level="fault_enumeration")

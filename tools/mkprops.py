"""Writes /verif/properties.jsonl (kept as a program so the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


PK, UP, UT, HA, BA, TG = ("jsonpickle/pickler.py", "jsonpickle/unpickler.py",
                          "jsonpickle/util.py", "jsonpickle/handlers.py",
                          "jsonpickle/backend.py", "jsonpickle/tags.py")

prop("C01", "Built-in values survive encode/decode unchanged",
     "For every acyclic value built from None, booleans, integers, finite floats, strings, bytes, bytearrays, lists, tuples, sets and dicts with string keys (keys not starting with 'py/' or 'json://'), decode(encode(v)) equals v, with the same type at every position and the same order in lists, tuples and dicts. "
     "This holds whatever the values of the leaves, however the parts are nested or shared, and for every setting of keys, make_refs, use_base85, warn, indent and separators, and every JSON backend.",
     ["inputs", "configurations"],
     "All values up to a bound on nodes and depth, with unbounded integers and strings at the leaves and arbitrary string keys; all option settings.",
     "Tests check a few dozen literal values; the guarantee quantifies over every nesting, every leaf value and every option combination, and a special case for one size, sign or nesting is invisible to fixed literals.",
     [PK, UP, UT, TG],
     [("type dispatch that flattens each built-in container to JSON or to a tagged dict", "jsonpickle/pickler.py encode and Pickler.flatten"),
      ("tag dispatch that rebuilds each container", "jsonpickle/unpickler.py decode and Unpickler.restore")],
     observe=["jsonpickle.encode", "jsonpickle.decode"])

prop("C02", "Shared references and cycles are rebuilt exactly",
     "For every object graph of lists, dicts and class instances (plain, slotted, with state, reduce or new-args hooks, and subclasses of list, dict and set), with any sharing and any cycles, decode(encode(g)) is isomorphic to g: two places hold the same list, dict or instance in the result exactly when they did in the input. "
     "References never resolve to a different object, a placeholder, None or a copy, also when tuples, sets, bytes or types sit between the shared objects, and however many objects precede them.",
     ["inputs"],
     "All graphs up to a bound on reference slots, all alias choices including back edges to unfinished parents, plus long lists with an arbitrary alias index.",
     "The numbering of references must stay in step between two independent traversals; tests exercise a handful of shapes, while one extra or missing number only shows when a later alias crosses the construct that miscounts.",
     [PK, UP],
     [("encoder assigns a number to each list, dict and instance on first visit and emits a reference on later visits", "jsonpickle/pickler.py Pickler"),
      ("decoder assigns numbers in the same order, with placeholders patched at the end", "jsonpickle/unpickler.py Unpickler")],
     state=[("reference table", "maps visited objects to their numbers", "Pickler and Unpickler instances")],
     observe=["jsonpickle.encode", "jsonpickle.decode"])

prop("C03", "keys=True round-trips arbitrary dict keys; keys=False coerces them",
     "With keys=True on both sides, dicts whose keys are any mix of strings (including strings that start with 'json://' or equal one of jsonpickle's own tag names), integers, floats, booleans, None, bytes, tuples and hashable instances decode to dicts with equal keys of the same type, the same values, and the same sharing between keys and values. "
     "With keys=False a string key not reserved as a tag is kept as is, None becomes 'null' and every other key becomes its repr().",
     ["inputs", "configurations"],
     "All small dicts, nested and shared, over symbolic string keys and keys of the listed kinds; values of any built-in kind or references to earlier objects.",
     "Key escaping interacts with reserved names, with the prefix and with reference numbering across two passes; tests use a few literal keys, but the guarantee covers every string and every mix and order of keys.",
     [PK, UP, TG],
     [("string keys first, then other keys behind a prefix, in both directions", "jsonpickle/pickler.py and jsonpickle/unpickler.py dict handling"),
      ("reserved tag names", "jsonpickle/tags.py")],
     observe=["jsonpickle.encode(keys=...)", "jsonpickle.decode(keys=...)"])

prop("C04", "Plain JSON passes through decode and encode untouched",
     "For every JSON document in which no object has a key that is a jsonpickle tag, decode returns exactly the data the JSON backend parses, whatever the strings, numbers, nesting and other keys (including keys starting with 'json://' when keys=False and strings equal to tag names used as values). "
     "For every value made only of None, booleans, integers, finite floats, strings, lists and string-keyed dicts in which no list or dict occurs twice, encode emits exactly that JSON structure and nothing more, for every option other than handle_readonly that does not limit depth.",
     ["inputs", "configurations"],
     "All JSON trees up to a bound, with symbolic strings and integers at leaves and as keys.",
     "The guarantee is about the absence of accidental interpretation for every key and string; tests only decode particular documents.",
     [UP, PK, TG],
     [("tag detection", "jsonpickle/unpickler.py Unpickler.restore"), ("primitive and container flattening", "jsonpickle/pickler.py Pickler.flatten")],
     observe=["jsonpickle.decode", "jsonpickle.encode"])

prop("C05", "Instance state round-trips under every class protocol",
     "An instance of an importable class decodes to an instance of the same class with equal state, for plain classes, slotted classes (also inherited, private and unset slots), attributes of any name, classes with __getstate__/__setstate__, __getnewargs__/__getnewargs_ex__, dict, list and set subclasses with extra attributes, named tuples, enums, frozen dataclasses, and objects without any attributes. "
     "Attributes listed in _jsonpickle_exclude, and only those, are left out; instances found inside other instances, lists, tuples, sets and dicts behave the same as at top level.",
     ["inputs", "programs"],
     "All combinations of the protocol features above on a class, up to two nested instances, with symbolic attribute values and symbolic choice of which attributes are set or excluded.",
     "Each protocol hook changes the route through encoder and decoder; tests fix one class per feature, while the failures live in combinations of features and in particular attribute values such as falsy states.",
     [PK, UP, UT],
     [("choice of protocol hooks for an instance", "jsonpickle/pickler.py instance flattening"), ("construction and state restoration", "jsonpickle/unpickler.py object restoration")],
     observe=["jsonpickle.encode", "jsonpickle.decode"])

prop("C06", "The __reduce__ protocol rebuilds what the reduce value says",
     "For an object whose class defines __reduce__ or __reduce_ex__ and is not itself a list-like or dict-like container, decode(encode(obj)) is equivalent to what the pickle protocol builds from the same reduce value: the callable applied to the arguments, then the state applied (through the state setter if given, else __setstate__, else the instance dict and slots), then list items appended and dict items set, each in order. "
     "This holds for every reduce value of two to six elements with any of the optional elements None or empty, and for references between the object, its arguments, its state and its items (other than arguments that contain the object itself). "
     "An object whose reduce value is the dotted name of an attribute of an imported module is encoded as that attribute's value in its place, a name that leads to the object itself or whose module is not imported is ignored, and references elsewhere are kept either way.",
     ["inputs", "programs"],
     "All reduce tuples of length 2 to 6 with each component absent, None, empty or non-empty, symbolic contents, and aliases among components; reduce values that are names.",
     "Tests cover a few fixed classes; the space of reduce values, absent components and aliasing between them is combinatorial.",
     [PK, UP, UT],
     [("reduce value flattening", "jsonpickle/pickler.py"), ("reduce value application", "jsonpickle/unpickler.py")],
     observe=["jsonpickle.encode", "jsonpickle.decode"])

prop("C07", "unpicklable=False emits plain, faithful JSON for any graph",
     "encode(v, unpicklable=False) terminates for every object graph, including cyclic ones, and emits no class, reference, state, reduce, function or module information; a list, dict or instance recurring inside itself becomes null (its repr() with make_refs=False). "
     "For instances of classes without constructor-argument hooks the JSON outside cycles mirrors the value: dicts map to objects, lists, tuples and sets to arrays, instances to objects of their attributes or their state, equal data is emitted equally wherever it is shared, and strings, numbers, booleans and None are themselves.",
     ["inputs", "configurations"],
     "All graphs up to a bound of built-in containers and instances, with sharing and cycles, symbolic leaves and both make_refs settings.",
     "Tests check a few small values; sharing, cycles and depth interact with the caching the encoder does in this mode.",
     [PK],
     [("plain rendering and cycle breaking", "jsonpickle/pickler.py Pickler"), ("per-call cache of flattened objects", "jsonpickle/pickler.py Pickler")],
     observe=["jsonpickle.encode(unpicklable=False)"])

prop("C08", "make_refs=False never emits references and breaks every cycle",
     "encode(v, make_refs=False) terminates for every object graph, its JSON contains no reference entries, and each place where an object would recur inside itself holds the repr() of that object. "
     "For acyclic graphs, however much is shared, decoding gives a value equal to v in which shared lists, dicts and instances may be separate copies.",
     ["inputs", "configurations"],
     "All graphs up to a bound with sharing and cycles, symbolic leaves.",
     "Tests use a couple of graphs; the rule has to distinguish a cycle from mere repetition for every arrangement.",
     [PK, UP],
     [("cycle detection", "jsonpickle/pickler.py Pickler"), ("per-call cache of flattened objects", "jsonpickle/pickler.py Pickler")],
     observe=["jsonpickle.encode(make_refs=False)", "jsonpickle.decode"])

prop("C09", "max_depth and max_iter limit exactly what they say",
     "With max_depth=n every list, tuple, dict or instance of a plain class nested n levels below the top is replaced by its repr() and everything shallower is encoded as without the limit, however often it is shared; primitives are never replaced. "
     "With max_iter=n a generator or user-written iterator (with unpicklable=False any iterator) contributes exactly its first min(n, length) items in order and is consumed no further than that; without it all items are included.",
     ["inputs", "configurations"],
     "All depths and counts (symbolic integers) against all small nested values and iterators of symbolic length.",
     "Off-by-one boundaries depend on the pair of limit and shape; tests use single fixed pairs.",
     [PK],
     [("depth counter", "jsonpickle/pickler.py Pickler"), ("bounded iterator consumption", "jsonpickle/pickler.py Pickler")],
     observe=["jsonpickle.encode(max_depth=...)", "jsonpickle.encode(max_iter=...)"])

prop("C10", "encode and decode never modify their arguments",
     "After encode(v, ...) returns or raises, the whole graph reachable from v (contents, order, attribute sets, identities, default factories) is exactly as before, for every option other than key sorting, iterators excepted. "
     "Unpickler.restore leaves the plain JSON data it is given unchanged, so that it can be restored again to an equal result, and encode leaves the option values and handlers' registrations alone.",
     ["inputs", "configurations"],
     "All graphs up to a bound of built-in containers and instances of the supported protocols, all options.",
     "Tests compare results, hardly ever the input after the call.",
     [PK, UP],
     [("flattening into fresh containers", "jsonpickle/pickler.py"), ("restoring into fresh containers", "jsonpickle/unpickler.py")],
     observe=["argument graph before and after jsonpickle.encode / Pickler.flatten / Unpickler.restore"])

prop("C11", "A reused Pickler or Unpickler behaves like a fresh one",
     "For any sequence of flatten or restore calls on one Pickler or Unpickler, including calls that raised part-way, each call with the default reset gives the same result as the same call on a newly made object with the same options; the same holds for encode and decode called repeatedly, with or without a supplied context. "
     "Classes supplied to one restore call are not visible to the next.",
     ["histories", "fault_sequences"],
     "All sequences of up to three calls over small graphs, each call possibly failing at an arbitrary point inside a user hook.",
     "Leaks between calls need a particular history, often with an exception in the middle; tests nearly always use a fresh object per call.",
     [PK, UP],
     [("reset of per-call state", "jsonpickle/pickler.py Pickler.reset and jsonpickle/unpickler.py Unpickler.reset")],
     state=[("per-call tables", "reference table, depth, placeholders, registered classes", "Pickler and Unpickler instances")],
     observe=["Pickler.flatten", "Unpickler.restore"])

prop("C12", "Default decoding never evaluates text from the document",
     "With the default safe=True, decode never passes any string from the document to eval or exec: a repr-tagged entry can only resolve to an attribute path inside an importable module, and yields None when the module or path does not exist or does not match. "
     "This holds for every document, wherever the entry sits, including in dict keys decoded with keys=True, in nested objects and in handler payloads; only safe=False enables evaluation.",
     ["inputs", "configurations"],
     "All repr strings (symbolic) in every position of a small document, all option settings with safe left at its default.",
     "The property is about every string and every nesting position; tests try a few strings at top level.",
     [UP],
     [("choice between safe and evaluating repr restoration", "jsonpickle/unpickler.py"), ("option propagation to nested decodes", "jsonpickle/unpickler.py")],
     observe=["jsonpickle.decode", "calls of eval/exec"])

prop("C13", "Missing classes follow the on_missing policy and lose no data",
     "When a document names a class that cannot be found, decode returns in its place a dict with the document's own keys and the decoded data; with on_missing 'ignore' (default) silently, with 'warn' after one warning naming the class, with 'error' raising ClassNotFoundError, with a function after calling it once with the class name; policy names are case-insensitive. "
     "Everything else in the document is decoded as if the class were present: later references to the missing object resolve to that same dict and other references are unaffected.",
     ["inputs", "configurations"],
     "All small documents with missing and present classes in any positions and aliases after them; all policies.",
     "Tests decode a lone missing object; the effects on siblings and reference numbers need particular surroundings.",
     [UP, "jsonpickle/errors.py"],
     [("missing class policy", "jsonpickle/unpickler.py"), ("class lookup", "jsonpickle/util.py")],
     observe=["jsonpickle.decode(on_missing=...)", "warnings"])

prop("C14", "Malformed tagged payloads degrade to empty values, not crashes",
     "When the payload of a tuple, set, iterator, base64, base85 or reduce entry has the wrong JSON type (number, boolean or null; for base64 and base85 also list or object), decode yields the empty tuple, set, iterator, bytes or list in its place, and a reference entry whose payload is not an integer, or is one that was never assigned, yields None (as whole document, list item, dict value or attribute). "
     "No exception escapes, and well-formed parts of the same document before and after it, references included, decode as they do with a well-formed entry in its place.",
     ["inputs", "fault_sequences"],
     "All JSON values of bounded size as payload of each tag, in any position of a small document.",
     "Tests list a few literals per tag at top level; the guarantee covers every payload and the surroundings.",
     [UP, UT],
     [("payload validation", "jsonpickle/unpickler.py"), ("base64/base85 decoding fallbacks", "jsonpickle/util.py")],
     observe=["jsonpickle.decode"])

prop("C15", "Handler lookup reflects the registration history",
     "After any sequence of register, unregister and decorator registrations, encoding and decoding an object uses the handler most recently registered for its exact class, else one registered with base=True for an ancestor of the class, else none; an unregistered class is treated as if never registered. "
     "The handler found for encoding is also found for decoding, by class or by name, and registrations of unrelated classes never interfere.",
     ["histories"],
     "All sequences of up to four registry operations over a small class hierarchy, with any handlers and base flags.",
     "Tests check single registrations; stale or shadowed entries need a history.",
     [HA],
     [("registry of exact and base handlers", "jsonpickle/handlers.py Registry")],
     observe=["jsonpickle.handlers.register/unregister/get", "jsonpickle.encode/decode of instances"])

prop("C16", "Custom handlers see their object and data, once, with sharing intact",
     "For an object with a registered handler that fills the given data or returns another dict or list, flatten is called exactly once per distinct object and its result is what is stored; restore is called once with that same stored data and its result stands for the object everywhere the object was referenced, including references from objects that the handler flattened or restored through the context. "
     "A handler that returns a string or None has that stored at every occurrence, without disturbing references between other objects. "
     "handler_context is passed exactly when it is not None and the method has a parameter of that name, and its value is the one given to that encode or decode call.",
     ["inputs", "configurations", "histories"],
     "All small graphs mixing handled and unhandled objects with aliases, several handler styles (class, instance, returning dict, string or None, recursing through the context), any handler_context.",
     "Tests use one handler and one object; reference numbering around handlers needs aliasing before, inside and after handled objects.",
     [HA, PK, UP],
     [("handler invocation on encode and decode", "jsonpickle/pickler.py and jsonpickle/unpickler.py"), ("context detection", "jsonpickle/handlers.py")],
     observe=["handler flatten/restore calls", "jsonpickle.encode/decode"])

prop("C17", "JSON backends are tried in order with their own options",
     "For any history of load_backend, remove_backend, set_preferred_backend, option setting and enable_fallthrough calls, encode and decode use the loaded backends in preference order, each with exactly the options set for that backend and direction (plus indent and separators if given to encode), return the first success, and raise the last backend's error if all fail (when decoding, failing means raising the backend's declared decode error, and any other error is raised at once); with fallthrough disabled only the first backend is tried. "
     "Removed or never loaded backends are not used, cannot be preferred, and using none at all raises AssertionError. "
     "A backend object given to encode or decode is the only one used in that call, also for dict keys that keys=True writes as text.",
     ["histories", "fault_sequences", "configurations"],
     "All histories of up to four management calls over three stub backends with arbitrary option values, followed by an encode and decode in which each backend may fail.",
     "The backend tests are not even collected by the test run, and none injects failures into several backends after a history of changes.",
     [BA],
     [("backend list and option tables", "jsonpickle/backend.py JSONBackend"), ("fallthrough loops", "jsonpickle/backend.py JSONBackend.encode/decode")],
     state=[("backend order, options, fallthrough flag", "which backends are used and how", "JSONBackend instances")],
     observe=["jsonpickle.backend.JSONBackend", "jsonpickle.encode(backend=...)", "jsonpickle.decode(backend=...)"])

prop("C18", "Binary data is exact in both base64 and base85",
     "For every byte string of every length and content, bytes and bytearray values encode to JSON text and decode to the same bytes and the same type, with use_base85 on or off and regardless of where they occur (values, dict keys with keys=True, attributes, inside bytearray or tuple). "
     "The text stored is standard base64 (or base85) of the data, decoding accepts both encodings whatever the option was, and undecodable text gives empty bytes.",
     ["inputs", "configurations"],
     "All byte strings up to a length bound with every byte symbolic.",
     "Tests use a few literals; padding and alphabet errors depend on length modulo 3 or 4 and on particular byte values.",
     [UT, PK, UP],
     [("base64/base85 helpers", "jsonpickle/util.py"), ("bytes and bytearray branches", "jsonpickle/pickler.py and jsonpickle/unpickler.py")],
     observe=["jsonpickle.encode", "jsonpickle.decode"])

prop("C19", "fail_safe replaces exactly the failing object",
     "With fail_safe set to a function that returns a string, number or None, an ordinary exception raised while encoding some object (by its state, reduce, property or handler hooks) never escapes: the function is called with that exception and its return value stands in the JSON for the innermost object being encoded at that moment, and everything outside that object is encoded as usual and still decodes. "
     "KeyboardInterrupt and SystemExit always propagate, and without fail_safe the original exception propagates; only a TypeError of the state and reduce hooks has another meaning, namely that the object has no such hook.",
     ["inputs", "fault_sequences"],
     "All small graphs in which any hook call may raise (symbolic fault positions), with aliases before and after the failing object.",
     "The fail_safe test class is not collected; even there a single failing object is tried.",
     [PK],
     [("exception capture around each object", "jsonpickle/pickler.py Pickler")],
     observe=["jsonpickle.encode(fail_safe=...)", "jsonpickle.decode"])

prop("C20", "Classes, functions and types resolve to the ones that were named",
     "A class, type, or module-level function encoded as a value decodes to the very same object, including nested classes and builtins; every importable class name used for an instance decodes to that class. "
     "Classes passed to decode (single, sequence, or dict from name to class) take precedence over importable ones, match by full name or last component, apply to this call only, and never affect names they do not match; names that resolve to nothing leave a type entry as it was and a function entry as None.",
     ["inputs", "configurations"],
     "All names from a set of module and nested-class layouts and symbolic names, all forms of the classes argument.",
     "Tests cover single forms with single names; precedence and partial matches need combinations.",
     [UT, UP, PK],
     [("name of a class", "jsonpickle/util.py importable_name"), ("lookup of a name", "jsonpickle/util.py loadclass"), ("caller-provided classes", "jsonpickle/unpickler.py")],
     observe=["jsonpickle.encode", "jsonpickle.decode(classes=...)"])

prop("C21", "Dicts with a default factory keep items, factory and references",
     "defaultdict and dict subclasses with a default_factory decode to the same class with equal items, including items named like the factory attribute, and with a factory that produces equal values: the same type for type factories, an equivalent factory for functions, the object itself when it is its own factory, and none when there was none. "
     "References to and from the dict, its values and objects after it are preserved.",
     ["inputs"],
     "All small default dicts with any factory kind, symbolic keys and values, nested and shared in either order.",
     "Tests use fixed dicts without objects following them; misnumbered references appear only when something after the dict is shared.",
     [PK, UP, HA],
     [("factory encoding", "jsonpickle/pickler.py"), ("factory decoding", "jsonpickle/unpickler.py"), ("clone factory", "jsonpickle/handlers.py")],
     observe=["jsonpickle.encode", "jsonpickle.decode"])

prop("C22", "Pandas frames, indexes and the pandas text codec are lossless",
     "With the pandas handlers registered, a DataFrame with unique labels whose columns have dtypes that have a code, or are of dtype object with any mixture of JSON scalars and small containers as cells, decodes to a DataFrame with the same labels, order, dtypes, cells (with their Python types), index and names, without warnings, however long its text is; an Index, MultiIndex or Series keeps its items, dtype and names. "
     "Run-length coding of type codes is inverted exactly for every list of codes, every dtype name has a code of its own that leads back to it, and the text processor returns the text and metadata it was given for every text length, threshold and kind of compression (including none). "
     "Threshold None always stores text, and the compressed form is used only above the threshold.",
     ["inputs", "configurations"],
     "All code lists up to a bound with arbitrary equalities between codes; symbolic text length and threshold; all supported dtype names; symbolic cells in object columns of frames of a few columns.",
     "Tests convert a few frames; boundaries of runs and of the threshold are particular values, and mixtures of cell types are not explored.",
     ["jsonpickle/ext/pandas.py", "jsonpickle/tags_pd.py"],
     [("run-length coding and text processor", "jsonpickle/ext/pandas.py"), ("dtype codes", "jsonpickle/tags_pd.py")],
     observe=["jsonpickle.encode", "jsonpickle.decode"])

prop("C23", "Values with built-in handlers round-trip",
     "Arrays (every typecode and contents), dates, times and datetimes (with and without time zone), compiled regular expressions (text or bytes, with their flags), UUIDs and locks (locked or not) decode to equal values of the same class, anywhere in a graph, with sharing and later references preserved; a queue decodes to a new empty queue and a text file to None. "
     "With unpicklable=False a date, time or datetime becomes its ISO text.",
     ["inputs", "configurations"],
     "Symbolic contents of each type (element values, reduce payload, pattern, flags, hex digits, lock state) in small graphs with aliases.",
     "Tests use one literal per type; the payload space and the interplay with references are not explored.",
     [HA],
     [("built-in handlers", "jsonpickle/handlers.py")],
     observe=["jsonpickle.encode", "jsonpickle.decode"])

prop("C24", "Presentation options never change what is decoded",
     "include_properties, warn, indent, separators, use_base85 and the choice of JSON backend change only the text: for every graph of built-in values and instances the decoded result is the same as without them. "
     "With include_properties each instance's JSON additionally lists its public properties with their current values, and decoding ignores that list.",
     ["inputs", "configurations"],
     "All combinations of these options on all small graphs of built-in values and instances with properties, slots and sharing.",
     "Each option is tested alone on one object; extra entries shift reference numbers only in combination with sharing.",
     [PK, UP, BA],
     [("property listing", "jsonpickle/pickler.py"), ("reserved entries skipped on decode", "jsonpickle/unpickler.py")],
     observe=["jsonpickle.encode", "jsonpickle.decode"])

prop("C25", "Values without a JSON form, modules, and pass-through options",
     "A lambda becomes null at the top and as an item of a list, tuple or set, is left out together with its key as a dict value or instance attribute, and with warn=True causes at least one warning for each place that becomes null (there is none otherwise); everything around it, shared objects included, decodes as if it had been written that way. "
     "A module decodes to that same module and a Decimal to an equal Decimal, wherever they are. "
     "With numeric_keys=True integer, float and boolean keys stay numbers in what flatten returns while all other keys are as without it, and with use_decimal=True Decimals stay as they are there.",
     ["inputs", "configurations"],
     "All small graphs with sharing and cycles in which lambdas, modules and Decimals stand at any place; dicts of a few symbolic keys of every kind under numeric_keys.",
     "Tests try one lambda in one list; what is skipped or replaced shifts reference numbers only in combination with sharing behind it.",
     [PK, UP, "jsonpickle/util.py"],
     [("choice of flattener and warning", "jsonpickle/pickler.py"), ("what can be pickled", "jsonpickle/util.py")],
     observe=["jsonpickle.encode", "jsonpickle.decode", "Pickler.flatten"])

prop("C26", "numpy arrays keep contents, layout and shared memory",
     "With the numpy handlers registered, an array of integer, boolean, float, fixed-length bytes, object or structured dtype decodes to an array of the same dtype (byte order included), shape, contents, C or Fortran order and writeability, without warnings, for every size threshold and compression; arrays larger than the threshold are stored as one string, others as nested lists. "
     "A view of a contiguous array that owns its memory decodes to a view of the decoded base at the same offset and with the same strides, whichever of the two comes first, and all sharing of arrays and of the objects around them is kept. "
     "Scalars and dtypes decode to equal ones of the same type, and an array over foreign memory that cannot be kept by reference is copied with a warning, copied silently or refused with ValueError, as the mode says.",
     ["inputs", "configurations"],
     "All contents of arrays of up to two dimensions and four elements in eleven dtypes, with eleven kinds of views, at thresholds below, at and above the size.",
     "Tests use the native byte order, C order and a handful of contents; what goes wrong depends on the combination of dtype, order, view and threshold.",
     ["jsonpickle/ext/numpy.py"],
     [("array handlers", "jsonpickle/ext/numpy.py"), ("scalar and dtype handlers", "jsonpickle/ext/numpy.py")],
     observe=["jsonpickle.encode", "jsonpickle.decode", "jsonpickle.ext.numpy.register_handlers"])

prop("C27", "Exceptions raised by hooks while decoding reach the caller",
     "When something that decode calls raises (a state setter, constructor, reduce function, item or attribute setter, append, add or extend of a container, hash function, a handler's restore, the on_missing function), that very exception leaves decode at once, wherever the object sits, also inside tuples, sets, dict keys, states, constructor arguments and handler data. "
     "It is not swallowed, replaced by another exception or by an empty value, and no further hook is called; only a TypeError of constructors, reduce functions, item setters of dict subclasses and hash functions and a KeyError of attribute setters have another meaning. "
     "Without an exception the result is as usual, and the next call is not affected by a failed one.",
     ["inputs", "fault_sequences"],
     "Every hook that decoding calls, raising under a symbolic condition one of seven exception classes, below up to two holders of twenty kinds.",
     "Tests do not let hooks raise while decoding; broad except clauses hide it only for some holders and exception classes.",
     [UP], [("restore of each tag", UP)],
     observe=["jsonpickle.decode"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

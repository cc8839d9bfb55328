"""Writes /verif/properties.jsonl."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/v8serialize/" + f for f in files],
                          "mechanism": [{"name": n, "where": "src/v8serialize/" + w} for n, w in mech],
                          **({"state": state} if state else {}),
                          **({"observe_at": observe} if observe else {}),
                          "hook_needed": None}})

p("R01", "dumps() then loads() gives back an equal value",
  "For every value built from supported types, loads(dumps(v)) succeeds and returns the JavaScript-typed image of v: equal primitives, the same keys/elements in the same order, the same array length and holes, the same error, RegExp, date, buffer and view contents. Values the format cannot carry are refused by dumps() with an EncodeV8SerializeError instead of being altered.",
  ["inputs"], "Every finite value graph over the supported Python and jstypes values, at any nesting and size.",
  "The tests sample generated values without a reference result for most Python types and compare with the library's own ==; they do not cover shared/mixed type graphs, nor values at size thresholds.",
  ["encode.py", "decode.py", "jstypes/jsobject.py", "jstypes/jsarray.py"],
  [("value encoding", "encode.py:TagWriter"), ("value decoding", "decode.py:TagReader")], ["dumps", "loads"])
p("R02", "Sharing, cycles and distinctness survive serialization",
  "After loads(dumps(v)), two places hold the same object exactly when they held the same object in v, including objects that contain themselves directly or through others; distinct mutable containers stay distinct even when equal. Only equal immutable values of the same type may be merged into one object, and only when this cannot be told apart except by identity.",
  ["inputs"], "Every rooted graph of containers, buffers, views, errors and leaf objects, with any sharing and cycles.",
  "Tests use a few fixed shapes; serialized ids are positional, so one type that takes or skips an id shifts every later back-reference, which needs combinations of types plus a later reference.",
  ["_references.py", "encode.py", "decode.py"],
  [("object log", "_references.py:SerializedObjectLog"), ("de-duplication of equal immutables", "encode.py:default_encode_steps"), ("object references", "decode.py:read_object_reference")],
  ["dumps", "loads", "is"])
p("W01", "dumps() output is well-formed V8 data an independent reader understands",
  "For every supported value, dumps() writes a stream that a strict reader of the V8 format version 15 accepts completely (header, tags, lengths, counts, object ids, alignment, view flags), with no bytes left over, and that denotes the same JavaScript value graph as the input.",
  ["inputs"], "Every finite value graph over the supported types, with any encoder feature set that admits it.",
  "The tests mostly check the encoder against the library's own decoder, so a matching mistake on both sides, or output that only this decoder tolerates, is invisible; only a few fixed byte strings come from V8.",
  ["encode.py", "extensions.py", "constants.py"],
  [("tag stream writer", "encode.py:WritableTagStream"), ("tag constraints", "constants.py:TagConstraint")], ["dumps"])
p("D01", "loads() reads every well-formed stream as the value it denotes",
  "For every well-formed V8 stream of version 13, 14 or 15, whatever choice of equivalent encodings its writer made (one-byte/two-byte/UTF-8 strings, int/uint/double numbers, dense or sparse arrays, padding, back-references, legacy error field order), loads() returns the value graph the format assigns to it, whose buffers are writable and do not share memory with the data that was read.",
  ["inputs"], "Every well-formed stream of format versions 13-15.",
  "Tests decode what this encoder writes plus a handful of captured streams; V8 uses encodings this encoder never emits (two-byte strings, int keys, double keys, dense arrays with trailing properties, references to any kind of object).",
  ["decode.py", "_references.py"],
  [("tag stream reader", "decode.py:ReadableTagStream"), ("tag dispatch", "decode.py:TagReader")], ["loads"])
p("D02", "Malformed input is always rejected, and only with the documented error",
  "For every byte string that is not a well-formed stream — truncated anywhere, wrong tags, wrong counts or lengths, dangling references, invalid text, invalid flags, unsupported version — loads() raises a DecodeV8SerializeError that carries the data and a position within it (within the interpreter's recursion limit); it never returns a value, hangs, or lets another exception escape.",
  ["inputs", "fault_sequences"], "Every byte string, in particular every prefix and small corruption of every well-formed stream.",
  "Tests check a few hand-made corruptions of single tags; the space of truncation points and corruptions inside nested and combined structures is not enumerated.",
  ["decode.py", "_errors.py"],
  [("bounds and tag checks", "decode.py:ReadableTagStream"), ("error conversion", "decode.py:loads")], ["loads"])
p("N01", "Numbers and BigInts are exact at every magnitude and boundary",
  "Every int and float survives encode and decode with its exact value (including -0, infinities, NaN and integers of any size), integers are written in a number encoding exactly when JavaScript's Number holds them safely and as BigInt otherwise, and every integer, double or BigInt encoding in a stream, in any varint or digit length, is read as the number it denotes.",
  ["inputs"], "Every integer, every IEEE double and every number encoding in a stream.",
  "Tests sample integers and floats at random; the boundaries between encodings (31/32-bit, 2^53, 64-bit digit multiples, varint byte counts) are each single points a sampler rarely lands on.",
  ["encode.py", "decode.py"],
  [("number encoding selection", "encode.py:TagWriter.encode_number"), ("varint/zigzag/bigint", "encode.py:WritableTagStream, decode.py:ReadableTagStream")], ["dumps", "loads"])
p("T01", "Dates keep the exact instant",
  "Every datetime with whole milliseconds, naive (local time) or in any timezone, is written as the exact time value of that instant and every stored whole time value that datetime can express in the requested timezone is read as exactly that instant, expressed in the requested timezone (naive local time by default); dates of this century and the second half of the last keep their microseconds through dumps and loads; NaN or out-of-range time values are refused with DecodeV8SerializeError.",
  ["inputs", "configurations"], "Every datetime between year 1 and 9999 with millisecond precision, every 64-bit time value, every tzinfo.",
  "Tests compare rounded values near the present; float rounding errors and range ends only show for particular milliseconds, centuries and offsets.",
  ["encode.py", "decode.py"],
  [("datetime to ms", "encode.py:write_js_date"), ("ms to datetime", "decode.py:read_js_date")], ["dumps", "loads"])
p("S01", "Strings keep their exact code points in all encodings and lengths",
  "Every str without lone surrogates is written and read back with identical code points for any content and length (including length-prefix boundaries); one-byte, aligned or unaligned two-byte and UTF-8 strings in a stream are read as the text they denote; text that is not representable or not valid in its encoding raises the documented encode/decode error.",
  ["inputs"], "Every Unicode string, every byte sequence as string body, each of the three string encodings, any alignment.",
  "The encoder only emits UTF-8, so the other two encodings, alignment padding and multi-byte length prefixes are reached by few tests; invalid sequences are not enumerated.",
  ["encode.py", "decode.py"],
  [("string writers", "encode.py:WritableTagStream.write_string_*"), ("string readers", "decode.py:ReadableTagStream.read_string_*")], ["dumps", "loads", "WritableTagStream", "ReadableTagStream"])
p("F01", "Output never uses a format feature the target V8 version lacks",
  "Data that needs an optional format feature (resizable buffers and length-tracking views, circular error causes, Float16Array, RegExp v flag) is written only when that feature is enabled, otherwise it is written in its baseline equivalent (resizable buffers and their views as fixed-length ones) or refused with a V8SerializeError, and everything else is unaffected; features enabled for a V8 version are exactly those introduced at or before it, and versions too old for the format are refused.",
  ["inputs", "configurations"], "Every subset of features, every V8 version, every value.",
  "Tests try features one at a time with the value written for them; a value nested in another, or combinations of features and versions, are not covered.",
  ["constants.py", "encode.py", "_versions.py"],
  [("feature table", "constants.py:SerializationFeature"), ("feature checks", "encode.py:WritableTagStream")], ["dumps", "SerializationFeature", "Encoder"])
p("E01", "Errors keep name, message, stack and cause",
  "Every JavaScript error object read or written keeps its standard name, message, stack and cause with absent parts staying distinguishable as the format defines, in both the current and the legacy field order; Python exceptions are written as errors carrying their type, message and traceback text; an error that is its own cause is handled as the configured features and field order allow, raising a V8SerializeError otherwise.",
  ["inputs", "configurations"], "Every error with any combination of present/absent fields, any cause (including errors, cycles), both field orders.",
  "The 6 names x field presence x order x cause kind x feature flags product is only sampled, and causes that refer back need specific graphs.",
  ["encode.py", "decode.py", "jstypes/jserror.py", "jstypes/_v8traceback.py"],
  [("error writer", "encode.py:write_js_error"), ("error reader", "decode.py:read_error"), ("exception conversion", "jstypes/jserror.py:JSErrorData.from_exception")], ["dumps", "loads", "JSErrorData.from_exception"])
p("X01", "Encode/decode steps run in order and control what follows",
  "Each value (or tag) is offered to the configured steps in order, a step may handle it, replace it before passing it on, or delegate, and nested values start again at the first step; a value or tag no step handles raises UnhandledValueEncodeV8SerializeError or UnhandledTagDecodeV8SerializeError, and a value that is not a legal property key in key position is refused with an EncodeV8SerializeError.",
  ["configurations", "inputs"], "Every sequence of steps (handling, transforming, delegating) and every nested value or stream.",
  "Tests use one or two custom steps around a single value; ordering, replacement and re-entry across several steps and nested positions are not enumerated.",
  ["encode.py", "decode.py"],
  [("encode pipeline", "encode.py:EncodeContext / DefaultEncodeContext"), ("decode pipeline", "decode.py:DecodeContext / DefaultDecodeContext")], ["Encoder", "Decoder", "dumps", "loads"])
p("X02", "loads() customization options change only what they name",
  "Each option of loads()/TagReader (object, array, map, set, constant, error and host-object types, default timezone, Node.js host objects) affects exactly the values it is documented for, wherever they are nested or shared, leaves all other values as without the option, and still preserves sharing and cycles.",
  ["configurations", "inputs"], "Every combination of options applied to every well-formed stream.",
  "Tests set one option on one flat value; combinations and nested/shared placement are untested.",
  ["decode.py"], [("options", "decode.py:TagReader.__init__, loads")], ["loads", "TagReader"])
p("L01", "Low-level stream writer and reader follow the format, call by call",
  "Every sequence of write calls on the tag stream writer yields exactly the bytes the format prescribes for them, the matching read calls on the tag stream reader give back the arguments and consume exactly those bytes, and a read call on bytes it does not match raises DecodeV8SerializeError without inventing data.",
  ["histories", "inputs"], "Every sequence of typed writes followed by the matching reads, and reads of every truncation.",
  "Tests write and read single items from an empty stream; position-dependent behaviour (alignment, id assignment, limits at the end of data) needs sequences.",
  ["encode.py", "decode.py"],
  [("writer", "encode.py:WritableTagStream"), ("reader", "decode.py:ReadableTagStream")], ["WritableTagStream", "ReadableTagStream"])
p("K01", "Back-references resolve to the object with that serialized id",
  "For every history of object recordings, an object's serialized id is its position in the stream, looking an id up gives that object and looking an object up gives its latest id, objects that are still being built in a way that forbids cycles cannot be referenced until they are complete, and unknown objects or ids raise the documented lookup errors.",
  ["histories"], "Every sequence of record, acyclic-record (enter/exit, also by exception), replace and lookup operations.",
  "Tests exercise the log through single references; nested forward references and lookups after failures are histories they do not reach.",
  ["_references.py"], [("object log", "_references.py:SerializedObjectLog")], ["WritableTagStream.objects", "ReadableTagStream.objects"])
p("A01", "Dense and sparse arrays are observably identical and match JavaScript arrays",
  "For every history of operations, an array's elements, holes, length, iteration order and errors are the same whether it is currently stored densely or sparsely, follow JavaScript's array model (index writes extend, removals leave holes, length truncates or extends with holes), and conversions between the two storages lose nothing.",
  ["histories"], "Every sequence of set/get/delete/append/extend/insert/pop/reverse/resize/remove and iteration calls, on both storages, from any initial content.",
  "Tests compare the two storages for single operations on sampled content; representation switches happen only at size/density thresholds reached by multi-step histories, and cached element counts only break when read then mutated.",
  ["jstypes/jsarrayproperties.py", "jstypes/jsarray.py", "jstypes/jsobject.py"],
  [("dense storage", "jstypes/jsarrayproperties.py:DenseArrayProperties"), ("sparse storage", "jstypes/jsarrayproperties.py:SparseArrayProperties"), ("switching", "jstypes/jsobject.py:JSObject.__setitem__")],
  ["JSArray", "DenseArrayProperties", "SparseArrayProperties"])
p("O01", "JSObject and JSArray follow JavaScript property rules",
  "For every history of operations, keys that spell the same JavaScript property (int, integral float, canonical numeric string) name one property, iteration gives array indexes ascending then other keys in insertion order, holes and deleted keys are absent, an array's length follows its largest index, and mapping operations behave as Python's for those keys.",
  ["histories", "inputs"], "Every sequence of mapping operations with keys of every spelling and magnitude.",
  "Tests sample key spellings one call at a time; ordering and aliasing errors need particular multi-step histories mixing spellings around 2^32-2.",
  ["jstypes/jsobject.py", "jstypes/jsarray.py", "jstypes/_normalise_property_key.py"],
  [("key normalisation", "jstypes/_normalise_property_key.py:normalise_property_key"), ("property storage", "jstypes/jsobject.py:JSObject")], ["JSObject", "JSArray"])
p("M01", "JSMap and JSSet follow JavaScript's same-value-zero key rules",
  "For every history of operations, JSMap and JSSet treat two keys as one exactly when JavaScript's same-value-zero does for their JavaScript images (numbers by value, NaN equal to itself, +0 equal to -0, booleans distinct from numbers, strings and bytes by value, other objects by identity), keep insertion order (overwriting a key keeps its place), and their mapping/set operations agree with that.",
  ["histories", "inputs"], "Every sequence of insert/delete/lookup/set-algebra operations over keys of all kinds.",
  "Tests sample pairs of keys and single operations; Python's own hashing merges True/1/1.0 silently, so mistakes only show for particular pairs in particular orders.",
  ["jstypes/jsmap.py", "jstypes/jsset.py", "jstypes/_equality.py"],
  [("key equality", "jstypes/_equality.py:same_value_zero"), ("map", "jstypes/jsmap.py:JSMap"), ("set", "jstypes/jsset.py:JSSet")], ["JSMap", "JSSet", "same_value_zero"])
p("B01", "Views over resizable buffers track their buffer like JavaScript's",
  "For every history of resizes, views created over a buffer report offset, length, bounds state and contents as JavaScript typed arrays/DataViews do: fixed-length views become out of bounds (empty) when the buffer no longer covers them and recover when it grows back, length-tracking views follow the buffer in whole elements, resizes beyond the maximum or of fixed buffers fail, bytes kept by a resize are unchanged and new bytes are zero.",
  ["histories"], "Every sequence of view creation, resize, write and read operations on any buffer size, maximum, offset, length and element size.",
  "Tests check one resize of one view; shrink-then-grow histories with several views and partial elements are not enumerated.",
  ["jstypes/jsbuffers.py"],
  [("buffers", "jstypes/jsbuffers.py:JSArrayBuffer"), ("views", "jstypes/jsbuffers.py:JSArrayBufferView")], ["JSArrayBuffer", "JSTypedArray classes", "JSDataView"])
p("B02", "Typed data access reads and writes the exact bytes",
  "Every typed element read or write through a view — any element type, offset, byte order and value — touches exactly that element's bytes, converts as the element type prescribes, and is refused when it does not lie entirely inside the view.",
  ["inputs", "histories"], "Every element type x byte order x offset (aligned or not, at both ends) x value, over every view region.",
  "Tests use a few offsets and values per accessor; off-by-one bounds and byte-order mistakes in one accessor need that accessor at that offset.",
  ["jstypes/jsbuffers.py"],
  [("DataView accessors", "jstypes/jsbuffers.py:JSDataView / DataViewBuffer"), ("typed array memoryviews", "jstypes/jsbuffers.py:JSTypedArray")], ["JSDataView", "get_buffer"])
p("Q01", "Equality of JS values is structural, terminates, and has no side effects",
  "For every pair of values, possibly cyclic or sharing parts, == terminates, is reflexive and symmetric, answers true when both have the same structure, types and contents and false when they differ anywhere reachable, and leaves later comparisons and threads unaffected, also when a comparison raises.",
  ["inputs", "histories", "schedules"], "Every pair of rooted graphs of objects, arrays, maps, sets and errors; sequences and concurrent runs of comparisons.",
  "Tests compare a few cyclic shapes; wrong verdicts need two graphs whose cycles interleave differently, and leaked state shows only in the next comparison.",
  ["_recursive_eq.py", "jstypes/jsobject.py", "jstypes/jsarray.py", "jstypes/jsmap.py", "jstypes/jsset.py", "jstypes/jserror.py"],
  [("recursion guard", "_recursive_eq.py:recursive_eq"), ("equality", "jstypes/*.py:__eq__")], ["=="])
p("Q02", "Equality and hashes of values without children agree with their contents",
  "At every moment, == between any two views, buffers, handles to remote buffers, wrapped primitives, RegExps, undefined and holes is symmetric, transitive and agrees with !=: views are equal exactly when they show equal items (remote ones when they are the same region of the same buffer as the same type), buffers when their bytes, maximum length and resizability agree, the others when their parts do; equal values that can be hashed have equal and stable hashes, and values whose bytes can change cannot be hashed.",
  ["inputs", "histories"], "Every pair of leaf values of every type over any bytes, after any history of writes and resizes of the buffers below them.",
  "Tests compare a few views with equal bytes; agreement of 13 item types over shared, changing bytes, of hashes across types, and NaN and -0 cannot be sampled by hand.",
  ["jstypes/jsbuffers.py", "jstypes/jsprimitiveobject.py", "jstypes/jsregexp.py", "jstypes/jsundefined.py"],
  [("view equality and hash", "jstypes/jsbuffers.py:JSArrayBufferView.__eq__/__hash__"), ("buffer equality", "jstypes/jsbuffers.py:JSArrayBuffer")], ["==", "hash"])
p("Q03", "JSMap and JSSet equality with each other and with Python containers",
  "Two JSMaps (JSSets) are equal exactly when the lists of their items (members) are (in order, by Python's ==), while a JSMap (JSSet) equals a Python mapping (set) exactly when both have as many entries and a dict (set) of its entries would be equal to it, whatever their order; one with keys that cannot be hashed equals none, and same-value-zero only decides which entries there are. JSObjects and JSArrays equal neither each other nor containers of other types. The answers are the same whichever operand comes first and agree with !=.",
  ["inputs", "histories"], "Every pair of sequences of insertions of keys that are equal, identical, the same value, NaN or unhashable, into JS and Python containers.",
  "Tests compare a few small maps; the interplay of three notions of sameness (identity, ==, same-value-zero) over sequences of insertions needs enumeration.",
  ["jstypes/jsmap.py", "jstypes/jsset.py", "jstypes/jsobject.py"],
  [("JSMap equality", "jstypes/jsmap.py:JSMap.__eq__"), ("JSSet equality", "jstypes/jsset.py:JSSet.__eq__"), ("JSObject equality", "jstypes/jsobject.py:JSObject.__eq__")], ["=="])
p("H01", "Node.js host-object views are written and read byte-exactly",
  "Every buffer view Node.js writes as a host object is read (when enabled) as a view of the same type over the same bytes taking its serialized id, every view written with the Node.js host-object step is readable by Node's format rules and by loads(), and unknown view types, bad lengths or host objects without a reader raise the documented errors.",
  ["inputs", "configurations"], "Every view type code, byte length and content, at any position in a value graph, with and without host-object support.",
  "Tests use a couple of captured buffers; the 13 view codes, partial elements, and later back-references past host objects are not enumerated.",
  ["extensions.py", "decode.py", "encode.py"],
  [("host object format", "extensions.py:NodeJsArrayBufferViewHostObjectHandler")], ["loads(nodejs=True)", "dumps with host object step"])
p("C01", "Calls are independent: reuse, failures and threads do not leak state",
  "The result of any dumps/loads/Encoder/Decoder call depends only on its own arguments: it is the same when encoders, decoders, steps or inputs are reused, after earlier calls failed or were re-entered, and when calls run in parallel threads; inputs are never modified.",
  ["histories", "schedules"], "Every interleaving and sequence of successful and failing encode/decode calls sharing encoders, decoders and values.",
  "Tests make one call per object; leaks across calls (object logs, default arguments, caches) need histories and interleavings.",
  ["encode.py", "decode.py"],
  [("per-call context", "encode.py:Encoder.encode, decode.py:Decoder.decode")], ["Encoder", "Decoder", "dumps", "loads"])
p("G01", "repr of JS values terminates and its settings are scoped",
  "repr() of every JS value, however nested or cyclic, terminates and shows every element in iteration order unless configured limits elide it; a scope of repr settings applies within it and is undone when it is left, normally or by an exception; a scope left before one opened within it leaves the settings unchanged with the documented warning, unless it forces their restoration.",
  ["histories", "inputs"], "Every value graph, and every sequence of entering and leaving repr-setting scopes, normally or by exception.",
  "Tests check fixed strings for fixed values and one nesting of settings.",
  ["jstypes/_repr.py"], [("repr", "jstypes/_repr.py:JSRepr"), ("scopes", "jstypes/_repr.py:js_repr_settings")], ["repr", "js_repr_settings"])
p("V01", "RegExp flags and patterns convert between Python and JavaScript consistently",
  "Every RegExp flag set has one canonical text and numeric form that convert into each other, a Python pattern is converted to the JavaScript flags of the same meaning and back to a pattern with the same source and flag meaning, and flags without an equivalent raise the documented error rather than changing what the pattern matches (Python's Unicode matching corresponds to the u and v flags and ASCII to their absence; flags that only affect JavaScript's matching API have no effect).",
  ["inputs"], "Every one of the 512 flag combinations and every Python flag combination, for str and bytes-independent sources.",
  "Tests cover single flags and a few pairs; interactions (u with v, ASCII with unicode) are combinations.",
  ["constants.py", "jstypes/jsregexp.py"],
  [("flags", "constants.py:JSRegExpFlag"), ("conversion", "jstypes/jsregexp.py:JSRegExp")], ["JSRegExp", "JSRegExpFlag"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

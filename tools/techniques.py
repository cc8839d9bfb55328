"""Technique and level note per property."""
WT = "TLA+ wire-format machine (spec/V8Wire.tla); TLC trace validation of recorded executions of the real codec (spec/WireTrace.tla)"
TECH = {
 "X02": ("TLA+ wire-format machine parameterised by the customisations of loads() (spec/V8Wire.tla) and definition of which options are accepted together (spec/LoadsOptions.tla): TLC enumerates every set of options, each run on a stream holding every kind of value; TLC trace validation of these and of random sets on generated streams", "exhaustive over the 1536 option sets (with a random customisation each); streams are systematic plus seeded random; values which a built-in dict or set cannot represent are left open"),
 "C01": ("TLA+ machine of calls interleaved step by step in threads, in sequence or nested (spec/Calls.tla; TLC proves outcomes independent, and refutes it for a shared object log): every schedule is driven through the real encoder and decoder; recorded histories of calls validated by TLC against outcomes in fresh processes (spec/CallHist.tla)", "exhaustive schedules of 2 calls (thorough also 3) over 11 (15) call patterns, of which quick runs all sequential ones and a random 5000; random histories and unscheduled threads beyond"),
 "X01": ("TLA+ machine of the encode/decode step pipelines (spec/Steps.tla): TLC enumerates step sequences x values/streams with the calls and result the specification prescribes, each replayed on the real pipelines with recorded calls", "exhaustive for up to 2 (thorough 3) steps before the writer/reader, over 20 encode and 16 decode step kinds, 16 values and 9 streams"),
 "L01": ("TLA+ machine of the low-level writer and reader (spec/Stream.tla), whose reads are shown to invert its writes; TLC enumerates sequences of write calls replayed on the real stream, and validates recorded write and read histories, the latter also over truncated and altered bytes", "exhaustive for up to 2 write calls of a ~110 (thorough ~190) call alphabet under the feature combinations; longer, nested and malformed ones by recorded random histories"),
 "G01": ("TLA+ definition of what the repr of a graph of values shows under limits, and machine of the scopes of settings (spec/Repr.tla): TLC enumerates small graphs x limits and all histories of scopes (with the proof that scopes left in order are undone), each replayed on the real types; recorded reprs of larger graphs and longer histories validated by TLC", "exhaustive for graphs of 2 (thorough 3) nodes with up to 2-3 children, and for 2 (thorough 3) scopes; the text is abstracted to the sequence of names, elements and elisions"),
 "Q01": ("TLA+ definition of equality of graphs (spec/Equality.tla; TLC proves it reflexive, symmetric, true of isomorphic and false of different graphs), and of concurrent comparisons (spec/EqThreads.tla): TLC enumerates all small graphs and all thread schedules, replayed on the real classes; recorded comparisons of larger graphs validated by TLC", "exhaustive for graphs of 3 nodes, 2 kinds, 2 children (thorough: 4-5 nodes) and for 2 (thorough 3) threads on 4 graphs; kinds are concretized as 13 ways of holding children; NaN and elements equal across types (1, 1.0, True) are excluded"),
 "Q02": ("TLA+ machine of leaf values over shared buffers (spec/LeafEq.tla; TLC checks that equality is an equivalence, that NaN apart it follows the bytes, and that hashable values never change theirs): TLC enumerates writes and resizes below groups of values, and each state's matrix of ==, !=, hash is compared with the real classes; recorded histories validated by TLC", "every type over 20 byte patterns and 21 numbers in every type that holds them; groups of 9-13 random values over 3 buffers with up to 2 (thorough 3) changes; longer random histories; wrapped NaNs are excluded"),
 "Q03": ("TLA+ definition of JSMap/JSSet equality with JS and Python containers over tokens with identity, == and same-value-zero classes (spec/MixedEq.tla; TLC checks symmetry and independence of order): TLC enumerates every two short sequences of insertions, each replayed on the real types in every Python container and operand order; recorded growing containers validated by TLC", "exhaustive for 6 (thorough 24) random alphabets of 3-4 keys, sequences of 2 (maps) or 3 (sets) insertions; longer random histories"),
 "V01": ("TLA+ definition of the flags of RegExps and of their meaning (spec/RegExp.tla): TLC enumerates all 512 JavaScript and 128 Python flag sets, each replayed on the real API; bytes read and written are judged by TLC against the wire-format machine", "exhaustive over flag sets; sources and probes of the flags' meaning are a fixed list"),
 "T01": ("TLA+ definition of the calendar and of time values (spec/DateTime.tla): TLC enumerates instants x offsets, each replayed on the real codec; recorded zone conversions validated by TLC", "instants over years 1-9999 with boundary milliseconds, offsets incl. sub-minute and sub-second; random instants and zones by recorded conversions"),
 "H01": (WT, "every host view code, byte length and alignment in bounds written and read; the machine denotes what each host object means; truncations judged as malformed"),
 "A01": ("TLA+ machine of JavaScript array elements (spec/ArrayProps.tla): TLC enumerates all transitions, each replayed on both real storages; recorded long histories validated by TLC", "exhaustive for arrays up to 3 (thorough 5) elements; longer and huge (to 2^32-1) arrays by recorded random histories"),
 "R01": (WT, "each dumps+loads execution is judged by TLC against the specified value of the bytes; inputs are a systematic list plus seeded random value trees"),
 "R02": (WT, "as R01 on graphs with sharing and cycles, all pairs of kinds of objects with later references; canonical graph forms decide isomorphism"),
 "W01": (WT, "the bytes written are read by the strict specification machine and compared with the value; systematic list plus seeded random graphs and feature sets"),
 "D01": (WT, "streams written with every encoding choice of the format are decoded by the real code and by the machine and compared"),
 "D02": (WT, "truncations, mutations and handmade malformed streams; the machine says which are malformed and the real outcome is compared"),
 "O01": ("TLA+ machine of JavaScript property storage (spec/JSObj.tla): TLC enumerates all transitions, each replayed on real JSObject and JSArray; recorded long histories validated by TLC", "exhaustive for objects of up to 2 (thorough 3) properties over every spelling of keys; larger ones by recorded random histories"),
 "M01": ("TLA+ machine of JavaScript Map and Set (spec/MapSet.tla): TLC enumerates all transitions, each replayed on real JSMap and JSSet; recorded long histories validated by TLC", "exhaustive for up to 2 (thorough 3) entries over colliding keys; larger ones by recorded random histories over 55 keys"),
 "N01": (WT, "systematic sweep (all powers of two/ten and neighbours, every double exponent, every BigInt digit length in bounds, padded varints) in every position, encoded and decoded; each execution judged by TLC"),
 "S01": (WT, "systematic sweep (every 256-block of code points, thorough: every code point; byte lengths around each length-prefix boundary; valid and invalid string bodies) in every position and with all three string writers; each execution judged by TLC"),
 "E01": (WT + "; TLA+ definition of exception conversion (spec/ErrText.tla) validating recorded conversions", "product of names x messages x stacks x causes x places written; every field order up to 4 fields, every field tag and cyclic causes read; seeded random exceptions (causes, contexts, groups, notes) converted"),
 "F01": ("TLA+ definition of the feature table and of version order (spec/Features.tla): TLC enumerates features x versions x needed features, each replayed on the real API; what is written is judged by TLC against the wire-format machine", "exhaustive over feature sets x ~60 versions around the table's entries x needed feature sets; values using them are sampled; a RegExp v flag without its feature is a known finding"),
 "K01": ("TLA+ machine of the object log (spec/ObjectLog.tla): TLC enumerates all transitions, each replayed on the real SerializedObjectLog; recorded long histories validated by TLC", "exhaustive for logs of up to 3 (thorough 4) objects; larger ones by recorded random histories"),
 "B01": ("TLA+ machine of (resizable) array buffers and views over them (spec/Buffers.tla): TLC enumerates all transitions, each replayed on the real classes; recorded long histories validated by TLC", "exhaustive for buffers of up to 4 (thorough more) bytes with every view type and region; larger ones by recorded random histories"),
 "B02": ("TLA+ machine of typed access to bytes incl. float rounding (spec/DataView.tla): TLC enumerates every access of every type/offset/order/value of bounded views, each replayed on the real classes; recorded random histories and all binary16 patterns validated by TLC", "exhaustive over types x offsets x byte orders x boundary values on small views; random values and larger views by recorded histories; bit patterns of NaN are not distinguished"),
}
NA = {}

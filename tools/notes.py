"""Per property: what is encoded, what it is judged against, and what stays outside (for DESIGN.md)."""
N = {
'C01': ('The JSON parser is run on documents whose every byte is symbolic, into a free-form document, `Vec<Option<i8>>`, a map of lists of units, strings and numbers. Asserted: it ends, no panic/overflow/bad access/uninitialised read, live heap objects afterwards as before.', 'The engine itself is the oracle (memory, panics, step bound, leaks).', 'Longer documents; the loops of the parser keep no state beyond the container stack, whose interplay is covered by the structured entries.'),
'C02': ('Acceptance of the parser on the same symbolic bytes.', 'A recogniser written from RFC 8259 (`oracle.rs`), run symbolically on the same bytes; both verdicts must agree on every path.', 'Numbers too large may be refused, as the statement says.'),
'C03': ('String literals with symbolic body bytes, symbolic hex digits and surrogate pairs.', 'The oracle\'s own decoder; the result must also be valid UTF-8.', 'Bodies longer than the bounds.'),
'C04': ('Literals of a fixed number of symbolic digits with symbolic sign into each integer type.', 'Value of the digits as a mathematical integer (`lia.rs`), range of the type.', 'More than 22 digits.'),
'C05': ('Symbolic digits, position of the point and exponent.', 'Exact window: digits·10^±k computed with one IEEE operation in the harness; outside: brackets from neighbouring powers of ten.', 'Correct rounding outside the exact window is not claimed.'),
'C06': ('Documents with symbolic bytes or generated shapes read into `Doc`.', 'The oracle\'s own tree of the same bytes, compared node by node.', ''),
'C07': ('User-defined value trees with symbolic shapes, keys and leaves serialized to text.', 'The text is read back by the oracle reader (not by deser) and compared with the tree; inexpressible values must give an error.', 'Wide integers to decimal in windows; finite floats from a fixed set.'),
'C08': ('Strings of symbolic characters as values and keys.', 'Oracle reader; additionally the literal contains the string itself when nothing needs escaping; deser\'s own parser reads it back.', ''),
'C09': ('Arbitrary values of 88 types built from symbolic choices, written and read.', 'Equality with the original.', 'Floats (see C05–C07); wide integers in windows.'),
'C10': ('The serialize driver over symbolic value trees whose emitters hand out borrowed and boxed handles that die at the next call; the std implementations; participants flattened into derived structs.', 'Event list derived from the tree; every event compared with payload, descriptor and depth; exactly one end.', ''),
'C11': ('Events of every value of 65 types, fed to the deserialize driver.', 'Equality with the original; event-level well-formedness.', 'Values whose content is itself null.'),
'C12': ('A symbolic 64-bit pattern per event kind into 12 numeric targets.', 'Mathematical value and range of the target.', ''),
'C13': ('Documents near the shape of 39 types with up to m places replaced by anything.', '`model.rs`: value of the document at the type, or refusal.', ''),
'C14': ('Arrays and tuples of elements that own memory, with too few, too many and wrong elements.', '`model.rs`; memory model for partially initialised storage (drops, leaks).', ''),
'C15': ('`Option<T>` next to `T` on the same symbolic document, step by step, also over a place that already has a value.', 'T itself: null gives None, anything else exactly what T does.', ''),
'C16': ('Map, set and list types on documents with symbolic, possibly equal keys.', 'Last value per key, distinct elements, order.', ''),
'C17': ('Both drivers with deliberately entangled safe participants (emitters handing out borrows of scratch memory replaced at the next call), stopped after any number of events, failing at any callback, with any order of drops.', 'Memory model; live objects afterwards.', 'Hand-written `unsafe` participants.'),
'C18': ('The same conversations with each `finish` recorded.', 'Automaton: once, after the last value below, not after an error; for flattened participants once per struct.', ''),
'C19': ('`state.depth()`, current and top descriptor read in every callback.', 'Depth and descriptors of the tree.', ''),
'C20': ('Two runs of the same symbolic repeating pattern at nesting n and 2n; the engine\'s peak call stack (in bytes, of the IR\'s frames) is read after each.', 'The peak of 2n exceeds that of n by less than one frame per extra level.', 'Native frame sizes differ; what is compared is growth.'),
'C21': ('Sequences of symbolic accesses to extension types from every callback; pairs among 16 easily confused types.', 'A map from type to last value.', ''),
'C22': ('Derived structs fed symbolic sequences of entries.', 'Reference semantics of the attributes in `derived.rs`.', ''),
'C23': ('Every key text against types in all styles; the naming functions on every identifier of bounded length.', 'Documented spelling, written independently.', 'The derive macro runs at compile time, so its other code is checked through what it generates for the shapes in C22–C26.'),
'C24': ('All values of derived structs serialized.', 'Reference list of (name, value).', ''),
'C25': ('Structs with flattened members read and written.', 'Reference semantics over the union of entries.', ''),
'C26': ('Unit enums against every text; newtypes next to their inner type.', 'Names of the variants; the inner type.', ''),
'C27': ('The same trees with and without the path wrapper, the path asked in every callback.', 'Location derived from the tree; events and descriptors equal with and without.', ''),
'C28': ('The same with the path sink.', 'Location derived from the stream.', ''),
'C29': ('`ToDebug` of symbolic trees, both formats, with writers that fail at a symbolic write.', 'A renderer of trees written in the harness on top of std\'s debug of scalars.', 'Characters outside ASCII from a selection; floats from a fixed set.'),
'C30': ('All conversions between scalars, atoms and events with symbolic content.', 'Kind and bits of the content.', ''),
'C31': ('Values accepted by the ignoring sink, in symbolic places and shapes.', 'The same conversation without them.', ''),
'C32': ('Participants failing at a symbolic callback, anywhere, behind drivers, wrappers, paths, derives and JSON.', 'The marker carried by the error; the count of callbacks does not move afterwards.', ''),
'C33': ('`OwnedSink` of standard types, moved, emptied or dropped before a symbolic callback of a symbolic event stream.', 'The same stream given to the sink of the type with its slot on the side; memory safety and leaks.', 'Sinks written by users inside the bundle, other than the shorter-lived one that the compiler has to refuse.'),
}

#!/usr/bin/env python3
"""Single source of the property list: `python3 tools/spec.py` rewrites
properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import PROPS

S = []
def P(id, title, statement, over, text, why, files, *mech, **kw):
    S.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

JD, JS = 'deser-json/src/de.rs', 'deser-json/src/ser.rs'
I, H, PR = 'inputs', 'histories', 'programs'

P('C01', 'Parsing any bytes as JSON ends in a value or an error',
  'Deserializing an arbitrary byte string as JSON, into any target type, always terminates and returns either a value or an error. It never panics, overflows, reads outside the input, loops forever or leaks memory.',
  [I], 'every byte string, any target type',
  'The tests parse a few dozen fixed documents, nearly all well-formed; malformed, truncated and non-UTF-8 inputs and extreme numbers are not sampled.',
  [JD], ('parser event loop and token reader', JD), ('string scanner and escape decoding over unchecked bytes', JD), ('number and exponent accumulation', JD))
P('C02', 'The JSON parser accepts exactly the JSON grammar',
  'A document is accepted if and only if it is a single JSON value per RFC 8259 with optional surrounding whitespace: no trailing commas, missing values, trailing bytes, leading zeros, bare signs, control characters in strings or unfinished literals are accepted, and no valid document is refused. The only valid documents that may be refused are those with numbers too large to represent.',
  [I], 'every byte string read as a free-form document',
  'Acceptance is a statement about all strings on both sides of the grammar; the tests hold one or two malformed documents.',
  [JD], ('state machine of containers', JD), ('number grammar', JD), ('literal matching', JD))
P('C03', 'JSON strings decode to exactly the characters they spell',
  'A JSON string literal is decoded to the exact sequence of characters it denotes: raw UTF-8 unchanged, simple escapes, four-digit hex escapes in either case, and surrogate pairs combined. Bad escapes, lone or swapped surrogates, raw control characters and invalid UTF-8 are refused, so no ill-formed string is ever produced.',
  [I], 'every string body: arbitrary bytes, every hex escape, every surrogate combination',
  'Tests contain a handful of escapes; 65536 escape values, all surrogate pairs and all ill-formed byte sequences are out of their reach.',
  [JD], ('string scanner', JD), ('escape and surrogate decoding', JD), ('UTF-8 validation of the result', JD))
P('C04', 'JSON integers are read exactly or refused',
  'An integer literal read into an integer type yields exactly the number written when the type can represent it and an error otherwise. Values never wrap, saturate or lose precision, whatever the sign, the number of digits or the surrounding containers.',
  [I], 'every integer literal, every integer type of up to 64 bits',
  'The boundary values of ten types against literals of up to twenty-odd digits cannot be enumerated; tests use small integers.',
  [JD, 'deser/src/de/impls.rs'], ('digit accumulation with overflow hand-over to floats', JD), ('integer sinks range conversion', 'deser/src/de/impls.rs'))
P('C05', 'JSON numbers with fraction or exponent become the double they denote',
  'A number with at most 15 significant digits and a net decimal exponent between -22 and 22 is read as the correctly rounded double; other numbers in range are read as a close double of the same sign. Numbers beyond the double range are refused rather than becoming infinite, and tiny ones become (almost) zero; zero stays zero whatever its exponent.',
  [I], 'every decimal number literal',
  'Tests check a few literals; the scaling by powers of ten, its loops for large exponents and overflow detection are only reachable with specific digit/exponent combinations.',
  [JD], ('scaling by a table of powers of ten', JD), ('exponent parsing and overflow', JD))
P('C06', 'A parsed JSON document is reported as its structure, in order',
  'Deserializing a JSON document delivers exactly the document: each container with its elements in document order, each key paired with its own value, each scalar with its value and kind, at any nesting and with any whitespace. Nothing is added, dropped, duplicated or reordered.',
  [I], 'every well-formed document',
  'Order and pairing for all nestings and whitespace placements is a statement over all documents; tests parse a few flat ones.',
  [JD], ('container state stack of the parser', JD), ('deserialize driver', 'deser/src/de/driver.rs'))
P('C07', 'JSON serialization writes exactly one well-formed document',
  'Serializing any serializable value to JSON yields exactly the JSON text of its structure: containers with commas and colons in the right places, elements and keys in order, scalars as JSON scalars, non-finite floats as null. Values JSON cannot express, such as raw byte strings or keys that are not strings, give an error rather than broken output.',
  [I, PR], 'every value tree: any nesting of sequences, maps, structs and scalars',
  'The tests serialize a handful of fixed values; separators depend on the full history of container states.',
  [JS], ('serializer event loop', JS), ('container state stack', JS))
P('C08', 'JSON output escapes every string so that it reads back unchanged',
  'Every string, as a value or as a map key, is written as a valid JSON string literal: control characters, quotes and backslashes are escaped and everything else is kept. Reading the literal back gives the original string.',
  [I], 'every Unicode string',
  'Every code point at every position relative to escaped neighbours must be right; tests cover a few escapes.',
  [JS, JD], ('escape table and run-copying writer', JS))
P('C09', 'Typed values survive a JSON round-trip',
  'Serializing a value of a supported type (booleans, integers of any size up to 64 bits, characters, strings, options, lists, tuples, arrays, maps, derived structs and enums, and nestings of these) to JSON and deserializing the text into the same type gives back an equal value.',
  [I, PR], 'every value of the supported types',
  'Round-tripping is quantified over all values; tests sample single values.',
  [JS, JD, 'deser/src/ser/impls.rs', 'deser/src/de/impls.rs'], ('serializer and parser for the same grammar', JS), ('sinks of the standard types', 'deser/src/de/impls.rs'), ('serialization of the standard types', 'deser/src/ser/impls.rs'))
P('C10', 'A serialized value is delivered as one balanced stream of events',
  'Serialization delivers, for every value, exactly the depth-first event stream of its structure: every start has its matching end, map keys alternate with values, children appear in order, and nothing follows the end of the value. Each container end carries the same description as its start.',
  [PR, I], 'every serializable value: any nesting of user-defined and standard containers',
  'Tests drive a few fixed values; the stack discipline of the driver must hold for arbitrary trees.',
  ['deser/src/ser/driver.rs'], ('serialize driver stack', 'deser/src/ser/driver.rs'))
P('C11', 'Standard types survive an event-level round-trip',
  'Feeding the events produced by serializing a value of a standard type back into the deserializer of that type gives back an equal value, independent of any data format.',
  [I, PR], 'every value of the standard scalar, option, sequence, tuple, array, map and set types and nestings of them',
  'Quantified over all values and type nestings; tests use single values.',
  ['deser/src/ser/impls.rs', 'deser/src/de/impls.rs'], ('serialize implementations', 'deser/src/ser/impls.rs'), ('sinks', 'deser/src/de/impls.rs'))
P('C12', 'Numbers are converted between types exactly or refused',
  'When an integer event is deserialized into an integer type, the result is the same mathematical number if the type can represent it and an error otherwise, for every combination of source and target signedness and width. Integers and floats deserialized into floating point types become the nearest float.',
  [I], 'every 64-bit signed or unsigned value, every numeric target type',
  'The conversions must hold for all 2^64 values of either signedness; tests use small positive numbers.',
  ['deser/src/de/impls.rs'], ('integer and float sinks', 'deser/src/de/impls.rs'))
P('C13', 'Values of the wrong shape are refused',
  'Deserializing a value into a type that cannot hold its kind (text into a number, a list into a map, a scalar into a struct, null into a non-optional type, a number into a character, and so on) gives an error and never a value. A kind the type does accept is never refused for its kind alone.',
  [I, PR], 'every kind of event against every standard target type',
  'The product of event kinds and target types, at any position inside containers, is not sampled by tests.',
  ['deser/src/de/impls.rs', 'deser/src/de/mod.rs'], ('default refusals of a sink', 'deser/src/de/mod.rs'), ('sinks', 'deser/src/de/impls.rs'))
P('C14', 'Arrays and tuples need exactly their number of elements',
  'Deserializing a sequence into a fixed-size array or a tuple succeeds if and only if the sequence has exactly as many elements, each element ending up at its own position. On failure at any point the elements already read are released exactly once and nothing unread is touched.',
  [I, H], 'every sequence length and failure position, arrays and tuples of every size',
  'Element lifetimes on partial failure involve uninitialised memory that tests cannot observe.',
  ['deser/src/de/impls.rs'], ('array sink over partially initialised storage', 'deser/src/de/impls.rs'), ('tuple sinks', 'deser/src/de/impls.rs'))
P('C15', 'Optional values distinguish null from everything else',
  'An optional type deserializes null to absent and anything else exactly as its inner type would, including lists, maps, structs and errors. A value that must not be null refuses null.',
  [I, PR], 'every inner type, every value',
  'Forwarding must hold for every kind of inner type and event; tests use optional scalars.',
  ['deser/src/de/impls.rs'], ('option sink wrapper', 'deser/src/de/impls.rs'))
P('C16', 'Maps, sets and lists collect exactly the entries of the input',
  'Deserializing a map or set yields exactly the distinct keys of the input, each with the last value given for it; a list yields all elements in order. Keys are converted with the rules of their type.',
  [I], 'every sequence of entries, including duplicates and any order',
  'Duplicate and order handling over all inputs; tests use one small map.',
  ['deser/src/de/impls.rs'], ('map, set and vector sinks', 'deser/src/de/impls.rs'))
P('C17', 'Drivers are memory safe for every event history and every abandonment',
  'Whatever prefix of a well-nested stream of events is fed to a deserializer, and wherever deserialization or serialization is abandoned or fails, no invalid memory is accessed, everything created is released exactly once, and no borrowed data is used after its owner is gone. This holds for user-defined participants that borrow from each other as the interfaces allow.',
  [H, PR], 'every sequence of events up to a bound, every abandonment point, every participant kind',
  'The drivers extend lifetimes by unsafe code; dangling use or wrong drop order depends on the exact history and is invisible to assertions in unit tests.',
  ['deser/src/de/driver.rs', 'deser/src/ser/driver.rs'], ('owned and borrowed handle stack of the deserialize driver', 'deser/src/de/driver.rs'), ('serialize driver stack with extended lifetimes', 'deser/src/ser/driver.rs'))
P('C18', 'Every participant is told exactly once that it is finished',
  'When a value completes, its completion callback runs exactly once, after all of its children completed and before its parent does, for sequences, maps, scalars and through reference, box and option wrappers. It is not run for values that did not complete.',
  [H, PR], 'every nesting of containers and wrappers, every event history',
  'Ordering and multiplicity over arbitrary nestings and wrappers; tests check none of it.',
  ['deser/src/ser/driver.rs', 'deser/src/de/driver.rs', 'deser/src/ser/impls.rs'], ('finish bookkeeping of both drivers', 'deser/src/ser/driver.rs'), ('wrappers forwarding the callback', 'deser/src/ser/impls.rs'))
P('C19', 'Nesting depth and the current type description are tracked exactly',
  'During serialization and deserialization the state reports, to every callback, the number of containers currently open and the description of the innermost one. While deserializing, a container still counts as open when it is told that it is complete. Both are back to their initial value when the value is complete.',
  [H, PR], 'every nesting of containers, at every callback',
  'Must hold at each callback for arbitrary nestings including failures; tests check one nesting.',
  ['deser/src/de/driver.rs', 'deser/src/ser/driver.rs', 'deser/src/de/mod.rs', 'deser/src/ser/mod.rs'], ('descriptor stack', 'deser/src/de/driver.rs'), ('descriptor stack', 'deser/src/ser/driver.rs'))
P('C20', 'Deep nesting does not consume call stack',
  'Serializing and deserializing (drivers, JSON reading and writing, ignored values) use an amount of call stack that does not grow with the nesting depth of the data.',
  [I, PR], 'every nesting depth',
  'A test can only try one depth on one stack size; independence of the depth needs the stack use at each level.',
  ['deser/src/de/driver.rs', 'deser/src/ser/driver.rs', JD, JS], ('heap-allocated stacks of the drivers', 'deser/src/de/driver.rs'))
P('C21', 'State extensions keep one value per type',
  'Extension values attached to the serialization or deserialization state are stored per type: reading gives the value last written for that type or its default, different types do not interfere, and values persist for the whole operation across containers.',
  [H], 'every sequence of reads and writes of several types',
  'Type-erased storage with unchecked casts; tests use one type once.',
  ['deser/src/extensions.rs'], ('type-indexed storage', 'deser/src/extensions.rs'))
P('C22', 'Derived structs deserialize from fields in any order',
  'A derived struct is deserialized from a map with its fields in any order: each field receives its own value, unknown keys are ignored with their whole value, the last of duplicate keys counts, and a missing field gives an error unless it is optional or has a default, which is then used. Nothing but a map is accepted.',
  [I, PR], 'every order, subset and duplication of fields, with unknown keys in between',
  'The product of orders, subsets and unknown values cannot be sampled.',
  ['deser-derive/src/de.rs'], ('generated struct sink', 'deser-derive/src/de.rs'))
P('C23', 'Renaming rules determine exactly the names read and written',
  'Fields and enum variants are written under their (renamed) name and read from that name and its aliases only: explicit renames win over container-wide case conversion, and case conversions follow their documented styles for every identifier. Reading and writing use the same name.',
  [I, PR], 'every key text compared with the names of several structs and enums covering all styles',
  'That no other key is accepted is a statement about all strings; tests check a few names.',
  ['deser-derive/src/attr.rs', 'deser-derive/src/de.rs', 'deser-derive/src/ser.rs'], ('name computation', 'deser-derive/src/attr.rs'))
P('C24', 'Derived structs serialize their fields in order, honouring skips',
  'A derived struct is serialized as a map of its fields in declaration order under their names, each with its own value. A field is left out exactly when its skip condition holds for its value, or when optionals are skipped and the value is an absent optional.',
  [I, PR], 'every combination of field values and skip conditions',
  'Every combination of skipped fields changes the emission state machine; tests have one combination.',
  ['deser-derive/src/ser.rs'], ('generated struct emitter', 'deser-derive/src/ser.rs'))
P('C25', 'Flattened fields share the map of their parent',
  'The fields of flattened members are written into and read from the same map as the other fields, at any nesting of flattening: each key reaches the member that owns it, in any order, unknown keys are ignored, and missing ones are reported or defaulted as for the member itself. Skips apply inside flattened members too.',
  [I, PR], 'every order and subset of keys over nested flattened structs',
  'Interleavings of keys of several members with unknown keys are not sampled by tests.',
  ['deser-derive/src/de.rs', 'deser-derive/src/ser.rs'], ('generated forwarding of keys', 'deser-derive/src/de.rs'), ('generated nested emitter', 'deser-derive/src/ser.rs'))
P('C26', 'Enums are their names and newtypes are transparent',
  'A derived unit enum is written as the name of its variant and read from exactly the names and aliases of its variants; any other text or kind is refused. A derived newtype struct is read and written exactly as its inner value.',
  [I, PR], 'every text and every kind of value',
  'That every other text is refused quantifies over all strings.',
  ['deser-derive/src/de.rs', 'deser-derive/src/ser.rs'], ('generated enum sink', 'deser-derive/src/de.rs'), ('generated newtype forwarding', 'deser-derive/src/ser.rs'))
P('C27', 'Path tracking during serialization names the current location',
  'While a value is serialized with path tracking, every participant sees exactly the chain of keys and indexes leading from the root to it, whatever the nesting and siblings before it. Tracking does not change what is serialized.',
  [PR, H], 'every nesting of maps, structs and sequences',
  'The path depends on the full history of containers; the test checks one value.',
  ['deser-path/src/ser.rs'], ('path stack maintained by wrapped emitters', 'deser-path/src/ser.rs'))
P('C28', 'Path tracking during deserialization names the current location',
  'While a value is deserialized with path tracking, every scalar when it arrives and every container when it completes see exactly the chain of keys and indexes leading from the root to them, also after inner containers have ended. Tracking does not change what is deserialized.',
  [PR, H], 'every nesting of maps and sequences, every event history',
  'The path depends on the full history of containers; the test checks one value.',
  ['deser-path/src/de.rs'], ('path stack maintained by wrapped sinks', 'deser-path/src/de.rs'))
P('C29', 'Debug formatting shows the serialized structure',
  'Formatting a serializable value for debugging prints exactly its structure: type names for described maps and lists, keys with their values, elements in order, scalars as their debug form, in both the compact and the pretty layout. An error of the writer ends the formatting and is passed on.',
  [I, PR], 'every value tree',
  'The formatter rebuilds nesting from the event stream; tests check a few values.',
  ['deser-debug/src/lib.rs'], ('recursive formatting of recorded events', 'deser-debug/src/lib.rs'))
P('C30', 'Event and value conversions keep the value',
  'Converting scalars, strings and byte strings into the universal scalar or event type and making them independent of their borrowed data keeps kind and value unchanged. Comparison and naming of kinds agree with the kind stored.',
  [I], 'every scalar value and string',
  'Quantified over all values; not tested.',
  ['deser/src/event.rs'], ('conversions', 'deser/src/event.rs'))
P('C31', 'Ignored values are consumed without a trace',
  'A value that the target does not want is consumed completely, whatever its size and nesting, without error and without influencing the values around it.',
  [I, PR], 'every value tree at every position among wanted values',
  'Nesting and position are unbounded; tests ignore a scalar.',
  ['deser/src/de/ignore.rs', 'deser/src/de/mod.rs'], ('ignoring sink', 'deser/src/de/ignore.rs'))
P('C32', 'Errors of participants stop the operation and reach the caller unchanged',
  'When any user-defined participant of a serialization or deserialization reports an error at any callback, the operation stops, that error is what the caller receives, and no later callback runs on any participant.',
  ['fault_sequences', PR], 'every failing callback of every participant in every nesting',
  'Failure injection at each callback of arbitrary nestings is not done by tests.',
  ['deser/src/de/driver.rs', 'deser/src/ser/driver.rs', JD, JS], ('error propagation through the drivers', 'deser/src/de/driver.rs'), ('error propagation through the JSON front ends', JS))
P('C33', 'An owned sink is the slot and the sink it bundles',
  'An owned sink accepts exactly what the sink of its type accepts when it is used directly, and yields exactly what that sink puts into its slot, each value once. It can be moved, emptied or released at any point of a deserialization, and safe code cannot make it touch released memory or leak.',
  ['histories', I], 'every event stream with the bundle moved, emptied or released before any callback',
  'The bundle hides its borrow with unsafe code; that it is sound depends on what happens in between, on which tests try nothing.',
  ['deser/src/de/owned.rs'], ('OwnedSink', 'deser/src/de/owned.rs'))

NA = {}

TECH = 'solver-based symbolic execution (z3) of LLVM IR compiled from /repo'
def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for s in S:
            f.write(json.dumps(s, ensure_ascii=False) + '\n')
    checks, na = [], []
    for s in S:
        i = s['id']
        if i in PROPS:
            checks.append(dict(property=i, quick_cmd='python3 check %s --quick' % i, thorough_cmd='python3 check %s --thorough' % i,
                               technique=TECH, level='model_checking',
                               level_note='Path-complete within the bounds: ' + PROPS[i]['bounds'] + '. Nothing is claimed beyond them; counterexamples are replayed on the real code.'))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
    m = dict(version=1, setup_cmd='python3 check --setup', checks=checks, not_applicable=na,
             notes='One driver (check) builds the symbolic engine (engine/), compiles harness/ with /repo to LLVM IR, runs the engine, replays counterexamples. No hooks in /repo.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
main()

def design():
    from notes import N
    import glob
    t = open(os.path.join(ROOT, 'tools', 'DESIGN.in.md')).read()
    times = {}
    p = os.path.join(ROOT, 'tools', 'times.json')
    if os.path.exists(p):
        times = json.load(open(p))
    o = []
    for s in S:
        i = s['id']
        w, orc, out = N[i]
        o.append('### %s %s\n' % (i, s['title']))
        o.append('*Encoded:* %s\n\n*Oracle:* %s\n' % (w, orc))
        o.append('*Bounds:* %s.\n' % PROPS[i]['bounds'])
        o.append('*Beyond tests:* %s\n' % s['why_tests_cant'])
        if out:
            o.append('*Outside:* %s\n' % out)
        if i in times:
            o.append('*Cost (quick):* %(wall)d s, %(paths)s symbolic paths, %(queries)s queries, %(solver)d s of solver time.\n' % times[i])
    fixed = '\n'.join('* ' + f['line'] for f in json.load(open(os.path.join(ROOT, 'known-findings.json')))['findings'])
    notes = json.load(open(os.path.join(ROOT, 'tools', 'seeds.json')))
    seeds = ['| bug | property | what it breaks | caught by |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        n = f.split(os.sep)[-2]
        m = json.load(open(f))
        seeds.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], notes.get(n, m['property'])))
    if len(seeds) > 2:
        t = t.replace('@@PROPS@@', '\n'.join(o)).replace('@@FIXED@@', fixed).replace('@@SEEDS@@', '\n'.join(seeds))
        open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
design()

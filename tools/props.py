"""What each check runs: feature set of the harness crate, harness entries with
their bounds per tier, outcomes that must be reached, assumptions."""

COMMON_ASSUMPTIONS = [
    'rustc and LLVM at opt-level 1 (overflow checks and debug assertions on) translate /repo faithfully to the IR that is encoded; '
    'sampled paths and every counterexample are replayed against ordinary dev and release builds',
    'the engine models allocation as never failing; one thread; no code behind FFI is reached',
    'nothing is claimed outside the stated bounds',
]

def E(entry, quick=((),), thorough=None, reach=(1,), desc='', **kw):
    """Entries for one harness function: `quick` and `thorough` list parameter
    tuples; the thorough tier runs both unless `only` is given."""
    res = []
    norm = lambda l: [tuple(x) if isinstance(x, (tuple, list)) else (x,) for x in l]
    q, t = norm(quick), norm(thorough or ())
    for p in q:
        res.append(dict(entry=entry, quick=list(p), thorough=list(p), reach=reach(p) if callable(reach) else list(reach), desc=desc, **kw))
    for p in t:
        if p not in q:
            res.append(dict(entry=entry, quick=None, thorough=list(p), reach=reach(p) if callable(reach) else list(reach), desc=desc, **kw))
    return res

PROPS = {}
def prop(pid, features, bounds, *entries, **kw):
    PROPS[pid] = dict(features=features, bounds=bounds, entries=[e for l in entries for e in l], **kw)

prop('C01', 'c01',
    'every byte string of length 0..5 (thorough 0..6) as an arbitrary document; of length 5 (7) as a list of optional integers and 5 (7) as a map of lists; '
    'string bodies of 0..5 (6) arbitrary bytes; numeric texts of up to 6 (8) characters; exponents of up to 11 digits in both signs after up to 25 integer and 9 fraction digits',
    E('c01_doc', range(0, 6), [6], lambda p: [2] if p[0] == 0 else [1, 2], 'every byte string of this length as a free-form document', time_thorough=500),
    E('c01_vec', [1, 5], [6, 7], lambda p: [2] if p[0] == 1 else [1, 2], 'every byte string of this length as Vec<Option<i8>>'),
    E('c01_map', [5], [6, 7], [1, 2], 'every byte string of this length as a map of lists of units'),
    E('c01_str', [0, 1, 3, 5], [6], lambda p: [2] if p[0] == 0 else [1, 2], 'a string body of arbitrary bytes (closing quote included in the bytes)'),
    E('c01_num', [1, 3, 5], [6, 7], [1, 2], 'numeric texts'),
    E('c01_exp', [(1, 1, 1), (2, 1, 1), (10, 1, 1), (10, 1, 2), (10, 1, 0), (10, 21, 0), (10, 22, 3), (11, 1, 1)], [(3, 1, 1), (4, 1, 1), (9, 1, 1), (10, 2, 9), (10, 25, 0), (11, 22, 2)], [1], 'numbers with long exponents'),
)
prop('C02', 'c02',
    'every byte string of length 0..5 (thorough 6) against an independent RFC 8259 recogniser; texts over structural characters up to 8 (9), lists up to 9 (10), maps up to 9 (11); '
    'numeric texts up to 5 (7) characters; literals with 3 (4) arbitrary bytes',
    E('c02_doc', range(0, 6), [6], lambda p: [2] if p[0] == 0 else [1, 2], 'acceptance of every byte string of this length', time_thorough=500),
    E('c02_struct', [4, 7, 8], [9], [1, 2], 'brackets, commas, colons, scalars'),
    E('c02_seq', [6, 9], [10], [1, 2], 'list syntax'),
    E('c02_map', [6, 9], [10, 11], [1, 2], 'map syntax'),
    E('c02_num', [1, 3, 5], [6, 7], [1, 2], 'number syntax', time_thorough=300),
    E('c02_word', [1, 2, 3], [4], [1, 2], 'literals with arbitrary bytes'),
)
prop('C03', 'c03',
    'string bodies of up to 4 (5) arbitrary bytes, \\u escapes with four arbitrary bytes, surrogate pairs with up to 6 arbitrary hex positions, literal/escape mixes',
    E('c03_body', [0, 1, 2, 3, 4], [5], lambda p: [1, 2] if p[0] else [1], 'bodies of arbitrary bytes'),
    E('c03_u', [()], None, [1, 2], 'one \\u escape, arbitrary bytes in the four positions'),
    E('c03_pair', [6], [8], [1, 2], 'two \\u escapes'),
    E('c03_pairhi', [()], None, [1, 2], 'surrogate pairs'),
    E('c03_mixed', [1, 2], [3], [1], 'escapes between literal characters'),
    E('c03_long', [12], [24], [1], 'long bodies'),
)
INTS = [(t, n) for t, n in ((0, 1), (0, 3), (0, 4), (1, 5), (1, 6), (2, 10), (2, 11), (3, 19), (3, 20), (3, 21), (4, 20), (5, 3), (6, 5), (7, 10), (8, 18), (8, 19), (8, 20), (9, 19))]
ALLINTS = [(t, n) for t in range(10) for n in range(1, 23)]
prop('C04', 'c04',
    'integer literals with either sign, all digits symbolic, for every integer type at the digit counts around its limits, 1..21 digits (thorough: 1..22 digits for all ten types); '
    'nested in a map in a list',
    E('c04_plain', INTS, ALLINTS, lambda p: [], 'every integer literal with this many digits (type index, digits)', time_thorough=60),
    E('c04_nested', [(6, 5), (8, 19), (0, 3)], [(3, 20), (7, 10), (1, 5)], [1, 2], 'two integers inside containers'),
)
EXACT = [(1, 1), (2, 1), (3, 2), (5, 3), (8, 1), (15, 1), (15, 8), (15, 15)]
prop('C05', 'c05',
    'numbers of 1..15 significant digits with any decimal point position tried and net exponent -22..22 (bit-exact); numbers of 20..30 (40) digits against their two leading digits; '
    'every power of ten of the double range in three notations; d.d exponents 300..312; exponents of 1..11 digits',
    E('c05_exact', EXACT, [(n, p) for n in range(1, 16) for p in range(1, n + 1)], [1], 'significant digits, position of the point', time_thorough=60),
    E('c05_pow', [0, 1, 2], None, [1], 'every power of ten of the double range'),
    E('c05_range', [()], None, [1, 2], 'both sides of the largest double'),
    E('c05_exp', [1, 2, 4, 11], [3, 9, 10], lambda p: [1] if p[0] < 3 else [1, 2], 'exponents of this many digits'),
    E('c05_long', [(18, 0), (20, 0), (21, 3), (10, 15), (30, 2)], [(n, m) for n in (2, 10, 19, 20, 21, 22, 40) for m in (0, 1, 18, 19, 20, 25)], [1], 'long numbers'),
)
prop('C06', 'c06',
    'every byte string of length 4 (thorough 5), texts over structural characters of length 8 (9), generated nested documents with up to 5 nodes, 3 (4) strings of up to 2 plain or escaped characters one after the other',
    E('c06_doc', [2, 4], [5], [1], 'events of every valid document of this length'),
    E('c06_struct', [5, 8], [9], [1], 'events of nested documents'),
    E('c06_gen', [(5, 3), (3, 2, 1)], None, [1], 'generated documents'),
    E('c06_strings', [(2, 3)], [(2, 4), (3, 3)], [1], 'strings with and without escapes one after the other (longest, how many)'),
)
prop('C07', 'c07',
    'every value tree of up to 5 nodes and 4 levels over sequences, maps and structs (thorough 6 nodes), keys and scalars of every kind, every 8- and 16-bit integer and windows of 8 bits (thorough 16) at the ends and the middle of 64 bits and around every power of ten from 10^5, '
    'every character and short text, doubles and finite/non-finite handling, options, std containers; nesting 30 (60); trees, integers and scalars also with the speedups feature',
    E('c07_tree', [(3, 2, 7, 0, 0), (4, 3, 7, 0, 0), (2, 2, 7, 2, 2), (3, 2, 7, 2, 1)], [(5, 4, 7, 0, 0), (3, 3, 7, 2, 2), (6, 3, 7, 0, 0)], lambda p: [1, 2] if p[4] else [1], 'every value tree of this size (nodes, depth, container kinds, leaf kinds, key kinds)'),
    E('c07_int', [(0, 8), (0, 16), (1, 16), (0, 8, 1), (1, 8, 1), (0, 8, 2), (0, 8, 3), (1, 8, 3)], [(1, 8), (0, 16, 1), (1, 16, 1)], [1], 'integers of this width, or around bounds'),
    E('c07_atoms', [()], None, [1, 2, 3], 'scalars of every kind'),
    E('c07_std', [()], None, [1, 2], 'standard containers'),
    E('c07_deep', [30], [60], [1], 'deep nesting'),
    # the same with itoa and ryu in place of the formatting of std
    E('c07_tree', [(3, 2, 7, 0, 0)], [(4, 3, 7, 0, 0)], [1], 'speedups: every value tree', feat='c07,speed'),
    E('c07_int', [(0, 8), (1, 16), (0, 8, 1), (1, 8, 1)], [(0, 16), (0, 8, 3), (1, 8, 3)], [1], 'speedups: integers', feat='c07,speed'),
    E('c07_atoms', [()], None, [1, 2, 3], 'speedups: scalars of every kind', feat='c07,speed'),
)
prop('C08', 'c08',
    'every string of up to 3 (thorough 4) characters over all of Unicode as a value, up to 2 (3) as a key; every ASCII string up to 4 (5); every character value and character key; round trip of up to 3 characters',
    E('c08_str', [0, 1, 2, 3], [4], [1], 'every Unicode string of this many characters'),
    E('c08_ascii', [3, 4], [5], [1], 'every ASCII string of this length'),
    E('c08_char', [()], None, [1], 'every character value'),
    E('c08_key', [1, 2], [3], [1], 'every map key of this many characters'),
    E('c08_charkey', [()], None, [1], 'every character key'),
    E('c08_back', [1, 2, 3], [4], [1], 'serialize, then parse'),
)
T1, T2, T3 = (4, 3, 7, 0, 0, 3), (3, 2, 7, 2, 2, 2), (5, 4, 7, 0, 0, 3)
WR = lambda how: [(w, h, 2, 1, 7, 0, 0, 3) for w in range(9) for h in how]
SF = lambda how: [(0, how, 2, 2, 7, 1 if how == 2 else 0, 0, 3), (1, how, 2, 2, 7 if how == 0 else 4, 1, 0, 3), (2, how, 2, 2, 4, 1, 0, 1)]
SFT = lambda how: [(0, how, 3, 2, 7, 0, 0, 3), (1, how, 3, 2, 4, 0, 0, 3)]
DF = lambda how: [(2, how, 2, 1, 3, 1, 0, 3), (3, how, 1, 1, 3, 0, 0, 3)]
DFT = lambda how: [(2, how, 2, 2, 3, 2, 0, 3), (4, how, 1, 1, 1, 0, 0, 3)]
prop('C10', 'c10',
    'every value tree of up to 5 nodes and 4 levels over sequences, maps, structs and empty-slot members, borrowed and owned handles, with keys and scalars of every kind; every standard wrapper around smaller trees; nesting 40',
    E('ser_tree', [T1, T2, (3, 2, 7, 3, 2, 3)], [T3, (3, 3, 7, 2, 2, 3), (3, 3, 7, 3, 2, 3)], [1, 2], 'event stream of every tree (nodes, depth, container kinds, leaf kinds, key kinds, handles)'),
    E('ser_deep', [(40, 0), (40, 1), (40, 2), (40, 3)], [(120, 0), (120, 3)], [1], 'deep nesting'),
    E('ser_wrap', WR((0,)), None, [1], 'wrappers'),
    E('ser_flat', SF(0), SFT(0), [1], 'flattened into derived structs (shape, how, nodes, depth, kinds, leaves, keys, handles)'),
)
EV1 = (12, 40, 44, 46, 47, 51)
EVS = [(t, 1 if t in EV1 else 2) for t in range(65)]
EVT = [(t, 2 if t in EV1 else 3) for t in range(65)]
PROPS['C10']['entries'] += E('ev_std', EVS, EVT, [1], 'every value of a standard type (type, longest container)')
prop('C11', 'c11',
    'every value of 65 standard types (scalars, strings of up to 2 characters, options, boxes, tuples of 1 to 12, arrays of 0 to 3, lists, maps and sets with up to 2 (thorough 3) entries, nested up to 3 levels); '
    'f32 other than NaN (payloads are not kept); options whose content is itself null, and containers of such, are not told apart by the event stream and left out',
    E('ev_std', EVS, EVT, [1], 'every value of a standard type (type, longest container)'),
)
D1, D2, D3 = (4, 3, 3, 0, 0, 3), (3, 2, 3, 2, 2, 3), (5, 4, 3, 0, 0, 3)
DSTD = [(t, 5) for t in range(19)]
DMORE = list(range(19)) + [20, 21]
DR = lambda p: {1: [1], 10: [1], 11: [2], 17: [2]}.get(p[0], [1, 2])
prop('C17', 'c17',
    'trees as for C10 and well-nested event streams of the same size, stopped after any number of events, with any participant failing at any call, and (for the std sinks) every stream of 5 events; through every wrapper; nesting 40',
    E('ser_abandon', [T1, T2], [T3], [1, 2], 'serialization stopped after any number of events'),
    E('ser_fail', [T1, T2], [T3], [1], 'serialization with any callback failing'),
    E('ser_wrap', WR((1, 2)), None, [1], 'the same through wrappers'),
    E('ser_flat', SF(1)[1:] + SF(2), SFT(1), [1], 'flattened into derived structs (shape, how, nodes, depth, kinds, leaves, keys, handles)'),
    E('ser_deep', [(40, 0), (40, 3)], [(120, 0)], [1], 'deep nesting'),
    E('de_abandon', [D1, D2], [D3], [1, 2], 'deserialization stopped after any number of events'),
    E('de_fail', [D1, D2], [D3], [1], 'deserialization with any callback failing'),
    E('de_wrap', [(w, h, 2, 1, 3, 0, 0, 3) for w in range(9) for h in (1, 2)], None, [1], 'the same through wrappers'),
    E('de_flat', DF(1) + DF(2), DFT(1), [1], 'flattened into derived structs (entries, how, nodes, depth, kinds, leaves, keys, handles)'),
    E('de_std', DSTD, [(t, 7) for t in range(19)], DR, 'std sinks under every event stream of this length'),
    E('de_std', [(t, 6, 2) for t in DMORE], [(t, 8, 2) for t in DMORE], [], 'several values into one place', ignore=('panic',)),
    E('de_redesc', [(3, 2, 3, 0, 0, 12), (2, 2, 3, 2, 0, 8)], [(4, 3, 3, 0, 0, 20)], [1, 2], 'sinks that replace what describes them'),
    E('de_unbound', [()], None, [1], 'a driver that outlives its sink', feat='c17,probe-from-sink', probe=True),
    E('de_deep', [(40, 0), (40, 1), (40, 2)], [(120, 0)], [1], 'deep nesting'),
)
prop('C18', 'c18',
    'every value tree and every well-nested event stream of up to 5 nodes and 4 levels, complete or stopped or failing anywhere, through every standard wrapper, the path wrapper and sink, and derived structs with up to three flattened participants of up to 2 fields or claimed keys each, on two levels',
    E('ser_tree', [T1, T2], [T3, (3, 3, 7, 2, 2, 3)], [1, 2], 'serialization: callbacks for every tree'),
    E('ser_abandon', [T1], [T2], [1, 2], 'stopped after any number of events'),
    E('ser_fail', [T1], [T2, T3], [1], 'any callback failing'),
    E('ser_wrap', WR((0, 1)), None, [1], 'through wrappers'),
    E('ser_flat', SF(0), SFT(0), [1], 'flattened into derived structs (shape, how, nodes, depth, kinds, leaves, keys, handles)'),
    E('path_ser', [(4, 3, 7, 0, 0, 3, 0), (3, 2, 7, 2, 2, 3, 0)], [(5, 4, 7, 0, 0, 3, 0)], [1], 'through the path wrapper'),
    E('ser_deep', [(40, 0), (40, 2)], [(120, 1)], [1], 'deep nesting'),
    E('de_tree', [D1, D2], [D3, (3, 3, 3, 2, 2, 3)], [1, 2], 'deserialization: callbacks for every stream'),
    E('de_abandon', [D1], [D2], [1, 2], 'stopped after any number of events'),
    E('de_fail', [D1], [D2, D3], [1], 'any callback failing'),
    E('de_wrap', [(w, h, 2, 1, 3, 0, 0, 3) for w in range(9) for h in (0, 1)], None, [1], 'through wrappers'),
    E('de_flat', DF(0), DFT(0), [1], 'flattened into derived structs (entries, how, nodes, depth, kinds, leaves, keys, handles)'),
    E('path_de', [(4, 3, 3, 0, 0, 3, 0), (3, 2, 3, 2, 2, 3, 0)], [(5, 4, 3, 0, 0, 3, 0)], [1], 'through the path sink'),
    E('de_deep', [(40, 0), (40, 1)], [(120, 2)], [1], 'deep nesting'),
)
prop('C19', 'c19',
    'every value tree and every well-nested event stream of up to 5 nodes and 4 levels, complete or stopped or failing anywhere, through every standard wrapper, the path wrapper and sink, and flattened into derived structs',
    E('ser_tree', [T1, T2], [T3, (3, 3, 7, 2, 2, 3)], [1, 2], 'serialization: every tree'),
    E('ser_abandon', [T1], [T2], [1, 2], 'stopped after any number of events'),
    E('ser_fail', [T1], [T2, T3], [1], 'any callback failing'),
    E('ser_wrap', WR((0, 1)), None, [1], 'through wrappers'),
    E('ser_flat', SF(0)[:2], SFT(0), [1], 'flattened into derived structs (shape, how, nodes, depth, kinds, leaves, keys, handles)'),
    E('path_ser', [(4, 3, 7, 0, 0, 3, 0), (3, 2, 7, 2, 2, 3, 0)], [(5, 4, 7, 0, 0, 3, 0)], [1], 'through the path wrapper'),
    E('ser_deep', [(40, 0), (40, 2)], [(120, 1)], [1], 'deep nesting'),
    E('de_tree', [D1, D2], [D3, (3, 3, 3, 2, 2, 3)], [1, 2], 'deserialization: every stream'),
    E('de_abandon', [D1], [D2], [1, 2], 'stopped after any number of events'),
    E('de_fail', [D1], [D2, D3], [1], 'any callback failing'),
    E('de_redesc', [(3, 2, 3, 0, 0, 12)], [(4, 3, 3, 0, 0, 20)], [1, 2], 'sinks that replace what describes them'),
    E('de_wrap', [(w, h, 2, 1, 3, 0, 0, 3) for w in range(9) for h in (0, 1)], None, [1], 'through wrappers'),
    E('de_flat', DF(0)[:1], DFT(0)[:1], [1], 'flattened into derived structs (entries, how, nodes, depth, kinds, leaves, keys, handles)'),
    E('path_de', [(4, 3, 3, 0, 0, 3, 0), (3, 2, 3, 2, 2, 3, 0)], [(5, 4, 3, 0, 0, 3, 0)], [1], 'through the path sink'),
    E('de_deep', [(40, 0), (40, 1)], [(120, 2)], [1], 'deep nesting'),
)
prop('C27', 'c27',
    'every value tree of up to 5 (thorough 6, reading 7) nodes and 4 levels, keys of every kind, both directions; the descriptors and events with and without the wrapper',
    E('path_ser', [(4, 3, 7, 0, 0, 3, 0), (3, 2, 7, 2, 2, 3, 0), (3, 2, 7, 3, 2, 3, 0), (5, 4, 7, 0, 0, 3, 0)], [(6, 4, 7, 0, 0, 3, 0), (4, 3, 7, 2, 2, 3, 0)], [1], 'serialization'),
    E('path_de', [(4, 3, 3, 0, 0, 3, 0), (3, 2, 3, 2, 1, 3, 0), (3, 2, 3, 2, 2, 3, 0), (3, 2, 3, 3, 2, 3, 0), (5, 4, 3, 0, 0, 3, 0)], [(6, 4, 3, 0, 0, 3, 0), (7, 4, 3, 0, 0, 3, 0), (4, 3, 3, 2, 2, 3, 0)], [1], 'deserialization'),
    E('path_deep', [20], [60], [1], 'deep nesting'),
)
prop('C28', 'c28',
    'every value tree of up to 5 (thorough 6, reading 7) nodes and 4 levels, keys of every kind, both directions, complete or stopped or failing anywhere',
    E('path_ser', [(4, 3, 7, 0, 0, 3, 0), (3, 2, 7, 2, 2, 3, 0), (3, 2, 7, 3, 2, 3, 0), (5, 4, 7, 0, 0, 3, 0)], [(6, 4, 7, 0, 0, 3, 0), (4, 3, 7, 2, 2, 3, 0)], [1], 'serialization'),
    E('path_de', [(4, 3, 3, 0, 0, 3, 0), (3, 2, 3, 2, 1, 3, 0), (3, 2, 3, 2, 2, 3, 0), (3, 2, 3, 3, 2, 3, 0), (5, 4, 3, 0, 0, 3, 0)], [(6, 4, 3, 0, 0, 3, 0), (7, 4, 3, 0, 0, 3, 0), (4, 3, 3, 2, 2, 3, 0)], [1], 'deserialization'),
    E('path_deep', [20], [60], [1], 'deep nesting'),
)
prop('C12', 'c12',
    'every 64-bit pattern of each numeric event kind (unsigned, signed, float) into every integer and float type, alone and as list element, tuple member, array element, map value',
    E('m_num', [(t, s, q) for t in range(12) for s in range(3) for q in ((0, 1, 2, 3) if t in (0, 3, 5, 8, 10) else (0, t % 4))],
      [(t, s, q) for t in range(12) for s in range(3) for q in range(4)],
      lambda p: [2] if p[1] == 2 and p[0] < 10 else [1] if p[0] > 9 or (p[0], p[1]) in ((3, 0), (4, 0), (8, 1), (9, 1)) else [1, 2], 'target type, kind of number, position'),
)
prop('C13', 'c13',
    '39 standard types against documents of their own shape with up to 1 (thorough 2) places replaced by any of 16 kinds of value with symbolic content: every scalar kind, texts of 0..2 characters, byte strings of 0..3, small lists and maps; containers of up to 1 (2) entries',
    E('m_kind', [(t, 1, 1) for t in range(39)], [(t, 2, 2) for t in range(39)], lambda p: [1, 2], 'type, longest container, misplaced values', time_thorough=120),
)
prop('C14', 'c14',
    'arrays of 0..3 and tuples of 1..12 elements that own memory, nested in each other and in lists, maps and options; sequences of 0..n+2 elements, any element at any depth replaced by a value of any kind (1, thorough 2 places)',
    E('m_fixed', [(t, 1, 1) for t in list(range(13)) + list(range(20, 39))], [(t, 2, 2) for t in list(range(13)) + list(range(20, 39))],
      lambda p: [1, 2], 'type, longest container, misplaced values or lengths', time_thorough=120),
    E('de_std', [(t, 5) for t in (2, 3, 4, 5, 10, 11, 14)], [(t, 7) for t in (2, 3, 4, 5, 10, 11, 14, 17)], DR, 'every event stream of this length'),
)
prop('C15', 'c15',
    '24 inner types, documents of their own shape with up to 1 (thorough 2) places of any kind, step by step against the inner type itself',
    E('m_option', [(t, 1 if t == 18 else 2, 1) for t in range(24)], [(t, 3, 1) for t in range(24)] + [(t, 1, 2) for t in range(24)], lambda p: [1, 2, 3] , 'inner type, longest container, misplaced values', time_thorough=120),
    E('m_again', [(t, 2) for t in range(16)], [(t, 3) for t in range(16)], [1], 'the same into a place that holds a value already'),
)
prop('C16', 'c16',
    '30 map, set and list types, every document of up to 3 (thorough 4) entries with arbitrary (equal or different) keys and values, and of up to 2 entries with one place of any kind',
    E('m_collect', [(t, 3, 0) for t in range(30)] + [(t, 2, 1) for t in range(30)], [(t, 4, 0) for t in range(30)], lambda p: [1, 2] if p[2] else [1], 'type, entries, misplaced values', time_thorough=120),
)
prop('C20', 'c20',
    'call stack at its deepest on nesting n and 2n, n = 16 (thorough 40), for every repeating pattern of lists and maps of period 3: both drivers with user-defined participants, JSON reading and writing, ignored values, recursive derived types',
    E('deep', [(k, 16) for k in range(10)], [(k, 40) for k in range(10)], [1], 'what is driven, levels'),
    E('deep_derived', [(k, 16) for k in range(5)], [(k, 40) for k in range(5)], [1], 'recursive derived types'),
)
prop('C21', 'c21',
    'every sequence of 3 (thorough 4) reads, writes and read-modify-writes of four extension types (two of equal layout, one zero-sized, one owning memory), starting at any event, spread over every callback of both directions; any two of 16 types that are easily confused (equal layout, equal short or full name, differing in a parameter, a lifetime or a box)',
    E('ext_de', [2, 3], [4], [1], 'deserialization state', time_thorough=300),
    E('ext_alike', [()], None, [1], 'types easily confused'),
    E('ext_ser', [2, 3], [4], [1], 'serialization state', time_thorough=300),
)
PLAIN = range(0, 14)
FLAT = range(20, 29)
ENUM = range(30, 47)
def reads(types, deep):
    q, t = [], []
    for k in types:
        big = k in (2, 4, 12, 25)
        q += [(k, 2, 0) if big else (k, 2, 1)] + [(k, n, 0) for n in deep.get(k, ())]
        t += [(k, 3, 1), (k, 2, 2)]
        if big:
            q.append((k, 1, 1))
    return q, t
def read_reach(p):
    if p[0] == 6:
        return [2] if p[1] < 3 else [1, 2]
    if p[0] in (0, 10, 20) and p[1] < 2:
        return [2]
    return [] if p[2] == 0 or p[1] < 2 else [1, 2]
q, t = reads(PLAIN, {0: (3, 4), 1: (3,), 6: (3, 4), 7: (3,)})
prop('C22', 'c22',
    '14 derived struct shapes (plain, generic, defaulted by field, container and function, renamed, aliased, optional, boxed, nested in lists, options, boxes and tuples): every sequence of up to 3 or 4 entries over all names and aliases with values of their type, '
    'and up to 2 entries with one place (key, value or the whole) of any kind, unknown keys being any text of up to 2 characters with values of several shapes; thorough 3 entries and two such places',
    E('d_read', q, t, read_reach, 'type, entries, misplaced values', time_thorough=150),
)
prop('C24', 'c24',
    '15 derived struct shapes with every combination of skip conditions, container-wide skipping of optionals and optional, unit and boxed fields; all values',
    E('d_write', [(k, 2) for k in PLAIN] + [(14, 2)], [(k, 3) for k in PLAIN] + [(14, 3)], [1], 'type, longest list'),
)
q, t = reads(FLAT, {20: (3, 4), 21: (3,), 22: (3,), 23: (3,), 26: (3,), 27: (3,), 28: (3,)})
prop('C25', 'c25',
    'seven structs with flattened members in every position (up to two levels, through boxes, options and newtypes, shadowed names, empty members), alone and in options and lists; entries in any order as for C22; all values when writing',
    E('d_read', q + [(44, 3, 0), (44, 2, 1)], t, read_reach, 'type, entries, misplaced values', time_thorough=150),
    E('d_write', [(k, 2) for k in FLAT] + [(44, 2)], [(k, 3) for k in FLAT], [1], 'type, longest list'),
)
prop('C26', 'c26',
    'three unit enums (renames, aliases, rename_all, empty alias) against every text of up to 2 characters, every name, and every kind of value; newtypes around 13 kinds of inner types, nested, as fields, optional and flattened; all values when writing',
    E('d_read', [(k, 2, 1) for k in ENUM], [(k, 3, 1) for k in ENUM if k != 44] + [(k, 2, 2) for k in ENUM if k != 44], [1, 2], 'type, entries, misplaced values', time_thorough=150),
    E('d_write', [(k, 2) for k in ENUM], [(k, 3) for k in ENUM], [1], 'type, longest list'),
    E('d_word', range(0, 9), range(9, 12), lambda p: [], 'every text of this length against every enum'),
)
prop('C30', 'c30',
    'every scalar kind with every 64-bit content, every character, every string of up to 2 (thorough 3) characters, every pair of scalars',
    E('conv_atom', [0, 1, 2], [3], [1], 'conversions of scalars to events and to independent data'),
    E('conv_eq', [0, 1, 2], [3], [1, 2], 'comparison'),
    E('conv_marks', [()], None, [1], 'container marks'),
    E('conv_from', [0, 1, 2], [3], [1], 'conversions into events'),
    E('conv_error', [()], None, [1], 'naming of kinds'),
)
NAMED = list(range(9))
prop('C23', 'c23',
    'ten fields and nine variants in every style (with explicit names, aliases, digits, leading, trailing and double underscores) against every ASCII key of 0..13 characters, every Unicode key of up to 3 characters, and two keys of one length; '
    'every identifier over [a-z0-9_] of up to 6 (thorough 8) characters as field and over [A-Za-z0-9] of up to 5 (7) as variant, in every style',
    E('n_fields', [(s, 13) for s in NAMED] + [(s, 3, 1) for s in NAMED] + [(s, 4, 0, 1) for s in NAMED],
      [(s, 12, 0, 1) for s in NAMED] + [(s, 6, 0, 2) for s in NAMED] + [(s, 2, 1, 1) for s in NAMED], [1, 2], 'every key text (style, most characters, of any kind, more keys)'),
    E('n_variants', [(20 + s, 13) for s in NAMED] + [(20 + s, 3, 1) for s in NAMED], [(20 + s, 4, 1) for s in NAMED], [1, 2], 'every variant text'),
    E('n_written', NAMED + [20 + s for s in NAMED], None, [1], 'names written'),
    E('n_field_ident', [(6, s) for s in NAMED], [(8, s) for s in NAMED], [1], 'every field identifier (most characters, style)', internal=True),
    E('n_variant_ident', [(5, s) for s in NAMED], [(7, s) for s in NAMED], [1], 'every variant identifier', internal=True),
    optional='c23x')
prop('C29', 'c29',
    'every tree of up to 3 (thorough 4) entries and 2 (3) levels of named and nameless lists, maps and structs with up to 2 (3) scalars of every kind, compact and pretty; byte strings of up to 2 (3) bytes and texts of up to 2 ASCII (and some other) characters in full; '
    '8-bit and the widest integers; four floats; a writer failing at any of its first 16 writes; nesting 4 (6). Characters and floats are compared with their std debug form',
    E('dbg_tree', [(3, 2, 0, 0), (2, 2, 1, 0), (1, 2, 1, 1), (2, 1, 2, 0), (3, 1, 0, 1)], [(4, 2, 0, 0), (3, 3, 0, 0), (2, 2, 2, 0), (3, 2, 1, 0), (2, 2, 0, 1), (3, 1, 3, 0)], [1, 2], 'every tree (entries, depth, scalars of any kind, names)'),
    E('dbg_text', [(2, 0), (1, 1), (0, 2), (8, 3), (9, 4), (0, 5), (0, 6), (0, 7)], [(3, 0), (2, 1), (16, 3), (16, 4)], [1], 'contents of scalars (size, kind)'),
    E('dbg_fail', [(1, 1, 1, 1, 8), (2, 2, 0, 0, 16)], [(2, 2, 1, 0, 16), (2, 1, 0, 1, 32)], [1, 2], 'failing writer'),
    E('dbg_deep', [4], [6], [1], 'deep nesting'),
)

JBIG = (16, 21, 27, 35, 36, 37, 38, 40, 42, 43, 45, 79, 90)
JT = [t for t in range(94) if t < 54 or t > 59]
JDEEP = (0, 2, 12, 14, 15, 17, 18, 24, 28, 30, 33, 39, 41, 44, 46, 51, 52, 53, 61, 65, 66, 85, 87, 89, 91)
prop('C09', 'c09',
    'every value of 88 types (integers of all widths, characters, strings of up to 2 (thorough 4) characters, options, boxes, tuples, arrays, lists, maps and sets with string-like keys, derived structs with and without skipping, flattening and defaults, unit enums, newtypes, nested); '
    'containers of up to 2 (thorough 3) entries; integers of more than 16 bits in windows at 0 and the ends of the type of 8 (16) bits; characters outside ASCII from a fixed selection; floats are covered by C05 and C06',
    E('j_back', [(t, 1 if t in JBIG else 2) for t in JT], [(t, 3) for t in JDEEP] + [(t, 2) for t in (16, 21, 27, 38, 94)], [1], 'type, longest container', time_thorough=600),
    E('j_text', [0, 1, 2], [3], [1], 'texts of this many characters as keys and values'),
    E('j_int', [(t, 8) for t in range(6)], [(t, 16) for t in range(6)], [1], 'integers near 0 and the ends (type, bits)'),
)
prop('C31', 'c31',
    'every stream of up to 3 (thorough 4) nodes with keys of any shape, ignored altogether or with any choice of ignored parts, also by sinks relying on the defaults of the trait; twelve derived structs with up to 3 entries and up to 2 unknown entries (keys of 0 or 2 ASCII characters) '
    'holding any value of up to 2 levels, anywhere between them; every text of up to 3 (4) bytes in an ignored place of four JSON documents; nesting 5 (8)',
    E('ign_root', [(3, 2, 0, 0), (3, 2, 2, 2), (3, 2, 3, 2), (4, 3, 0, 0)], [(4, 3, 2, 2), (5, 4, 0, 0)], [1, 2], 'nothing wanted (nodes, depth, leaves, keys)'),
    E('ign_pick', [(4, 3, 0, 0), (3, 2, 2, 1), (2, 2, 3, 1), (2, 2, 0, 2)], [(5, 4, 0, 0), (3, 3, 2, 2)], [1, 2], 'any parts wanted'),
    E('ign_fields', [(t, 2, 2, 1, 1) for t in range(12)] + [(t, 3, 1, 1, 1) for t in (0, 2, 4)] + [(0, 2, 1, 1, 2), (2, 2, 1, 2, 1)], [(6, 3, 1, 1, 1), (0, 2, 1, 2, 2)] + [(t, 3, 1, 1, 2) for t in (0, 2, 3, 4, 7)] + [(t, 2, 2, 2, 1) for t in (0, 4, 6)], [], 'fields among unknown entries (type, entries, longest ignored, its depth, unknown entries)', time_thorough=300),
    E('ign_json', [(t, n, d) for t in (0, 1) for n in (1, 3) for d in range(4)], [(0, 4, d) for d in range(4)], [2], 'any text in an ignored place (type, bytes, document)'),
    E('ign_all_json', [0, 1, 2, 3], [4], [1], 'any text of which nothing is kept'),
    E('ign_deep', [5], [8], [1], 'deep nesting'),
)
FT = range(8)
prop('C32', 'c32',
    'every value tree and event stream of up to 4 (thorough 5) nodes with any participant failing at any call, directly, through every standard wrapper, through the path wrapper and the path sink; JSON text of up to 3 (4) nodes placed in lists, options, maps, tuples, derived structs (flattened twice, newtypes, unknown entries) in both directions',
    E('ser_fail', [T1, T2], [T3], [1], 'serialization with any callback failing'),
    E('ser_wrap', WR((2,)), None, [1], 'the same through wrappers'),
    E('ser_flat', SF(2), SFT(2), [1], 'flattened into derived structs (shape, how, nodes, depth, kinds, leaves, keys, handles)'),
    E('path_ser', [(4, 3, 7, 0, 0, 3, 2), (3, 2, 7, 2, 2, 3, 2)], [(5, 4, 7, 0, 0, 3, 2)], [1], 'through the path wrapper'),
    E('de_fail', [D1, D2], [D3], [1], 'deserialization with any callback failing'),
    E('de_wrap', [(w, 2, 2, 1, 3, 0, 0, 3) for w in range(9)], None, [1], 'the same through wrappers'),
    E('de_flat', DF(2), DFT(2), [1], 'flattened into derived structs (entries, how, nodes, depth, kinds, leaves, keys, handles)'),
    E('path_de', [(4, 3, 3, 0, 0, 3, 2), (3, 2, 3, 2, 1, 3, 2)], [(5, 4, 3, 0, 0, 3, 2)], [1], 'through the path sink'),
    E('fr_ser', [(t, 3, 2, 7, 0, 3) for t in FT] + [(5, 4, 3, 7, 0, 3)], [(t, 4, 3, 7, 0, 3) for t in FT], [1], 'through the JSON serializer and derived types (target, nodes, depth, kinds, leaves, handles)'),
    E('fr_ser_events', [(t, 3, 2, 7, 0, 3) for t in FT], [(t, 4, 3, 7, 0, 3) for t in FT], [1], 'the same with the events alone'),
    E('fr_de', [(t, 3, 2, 3, 2, 3) for t in FT] + [(5, 4, 3, 3, 0, 3)], [(t, 4, 3, 3, 0, 3) for t in FT], [1], 'through the JSON parser and derived types'),
)
prop('C33', 'c33',
    '17 standard types (atoms, boxes, options, lists, arrays, tuples, maps, sets, byte strings, nested) under every well-nested stream of up to 4 (thorough 6) events; the bundle moved, emptied or released before any callback of its sink',
    E('own_any', [(t, 4) for t in range(17)], [(t, 6) for t in range(17)], lambda p: [2, 3] if p[0] in (8, 14) else [1, 3] if p[0] in (4, 9) else [1, 2, 3], 'type, events'),
    E('own_swapped', [()], None, [1], 'an inner sink that lives shorter', feat='c33,probe-owned-sink', probe=True),
)

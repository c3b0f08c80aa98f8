"""What each check runs. See DESIGN.md."""
ALL_LEAVES = ["null", "bool", "int", "float", "text", "binary", "tag", "number", "none", "unit"]
ALL_OPEN = ["map", "seq", "tagged", "some", "enum", "record", "tuple", "record_tuple", "val", "valc"]


def consts(toks, depth, items, leaves=ALL_LEAVES, openers=ALL_OPEN, hints=0, force=False, deep=False, big=()):
    return {'MaxToks': toks, 'MaxDepth': depth, 'MaxItems': items, 'Leaves': leaves, 'Openers': openers, 'MaxHints': hints,
            'Seeds': '<- EnvSeeds', 'ForceHint': force, 'Deep': deep, 'Big': big}


GINV = ['TypeOK', 'Sound', 'CanFinish']


def stream_stages(mode, small=8, sim=500, toks=40):
    def f(tier):
        q = tier == 'quick'
        return [
            {'kind': 'gen', 'name': 'small', 'module': 'GenStream', 'consts': consts(small if q else small + 1, 3, 2, hints=1), 'mode': mode,
             'invs': GINV + ['LoweringSound', 'FullIsIdentity', 'FlatBalanced'], 'seeds': 1},
            {'kind': 'gen', 'name': 'deep', 'module': 'GenStream', 'consts': consts(toks if q else 80, 7, 4, hints=2, deep=True), 'mode': mode,
             'invs': GINV + ['LoweringSound', 'FullIsIdentity', 'FlatBalanced'], 'sim': sim if q else sim * 20},
        ]
    return f


RULE_STREAM = ('behaviours are complete token sequences of spec/SvalGen.tla: exhaustive over shapes within the small bounds, random (TLC simulation) '
               'within the deep ones; payloads from the pools in SvalGen; non-trivial: more than three tokens')

CHECKS = {
    'S02': {'stages': stream_stages('s02'), 'rule': RULE_STREAM},
    'S03': {'stages': stream_stages('s03'), 'rule': RULE_STREAM},
}

JSON_OPEN = ["map", "seq", "tagged", "some", "enum", "record", "tuple", "record_tuple", "val", "emptyenum"]


def j01(tier):
    q = tier == 'quick'
    inv = GINV + ['WriterAgrees']
    few = ["int", "text", "tag", "none", "number"]
    return [
        {'kind': 'gen', 'name': 'small', 'module': 'GenJson', 'consts': consts(9 if q else 10, 4, 2, leaves=ALL_LEAVES, openers=JSON_OPEN), 'invs': inv, 'seeds': 1, 'mode': 'j01'},
        {'kind': 'gen', 'name': 'variants', 'module': 'GenJson', 'consts': consts(11 if q else 13, 5, 1, leaves=["int", "tag"], openers=["map", "tagged", "enum", "record", "tuple"]), 'invs': inv, 'seeds': 2, 'mode': 'j01'},
        {'kind': 'gen', 'name': 'json-text', 'module': 'GenJson', 'consts': consts(12, 3, 2, leaves=["json", "int"], openers=["seq", "tagged", "enum", "record", "tuple"]), 'invs': inv, 'seeds': 2, 'mode': 'j01'},
        # what one value sets up must not be left behind for the next
        {'kind': 'gen', 'name': 'mixed', 'module': 'GenJson', 'consts': consts(20, 2, 3, leaves=["json", "text", "number"], openers=["seq", "map"]), 'invs': inv, 'seeds': 12 if q else 200, 'mode': 'j01'},
        {'kind': 'gen', 'name': 'deep-mixed', 'module': 'GenJson', 'consts': consts(60 if q else 100, 5, 6, leaves=["json", "text", "number", "tag", "int"], openers=["map", "seq", "tagged", "enum", "record", "tuple", "some"], deep=True), 'invs': inv, 'sim': 400 if q else 8000, 'mode': 'j01'},
        {'kind': 'gen', 'name': 'deep', 'module': 'GenJson', 'consts': consts(50 if q else 90, 8, 4, openers=JSON_OPEN, deep=True), 'invs': inv, 'sim': 500 if q else 8000, 'mode': 'j01'},
        {'kind': 'gen', 'name': 'deep-variants', 'module': 'GenJson', 'consts': consts(40 if q else 80, 9, 3, leaves=few, openers=["map", "seq", "tagged", "enum", "record", "tuple", "some"], deep=True), 'invs': inv, 'sim': 500 if q else 8000, 'mode': 'j01'},
    ]


CHECKS['J01'] = {'stages': j01, 'rule': RULE_STREAM + '; the specification gives the JSON tree, the output is parsed by a strict parser and compared'}


def texts(mode, chars='all', ln=2, frags=3, sim=400):
    inv = ['RoundTrip', 'NothingElse', 'FragmentIndependent']

    def f(tier):
        q = tier == 'quick'
        return [
            {'kind': 'gen', 'name': 'pairs', 'module': 'GenText', 'consts': {'MaxLen': ln, 'MaxFrags': frags, 'Chars': chars, 'FreeB': False}, 'invs': inv, 'mode': mode},
            {'kind': 'gen', 'name': 'cuts', 'module': 'GenText', 'consts': {'MaxLen': 3 if q else 4, 'MaxFrags': 4, 'Chars': 'short', 'FreeB': True}, 'invs': inv, 'mode': mode},
            {'kind': 'gen', 'name': 'long', 'module': 'GenText', 'consts': {'MaxLen': 60, 'MaxFrags': 9, 'Chars': 'all', 'FreeB': True}, 'invs': inv, 'sim': sim if q else 20 * sim, 'mode': mode},
        ] + ([] if q else [{'kind': 'gen', 'name': 'triples', 'module': 'GenText', 'consts': {'MaxLen': 3, 'MaxFrags': 3, 'Chars': 'few', 'FreeB': False}, 'invs': inv, 'mode': mode}])
    return f


CHECKS['J02'] = {'stages': texts('j02'), 'rule': 'texts over an alphabet of all control characters, the JSON specials and boundary code points of every UTF-8 length, cut into fragments; non-trivial: more than one fragment'}

NUM_ALPHA = ["+", "-", "0", "1", "5", ".", "e", "E"]


def j03(tier):
    q = tier == 'quick'
    inv = ['ConversionRight', 'SpecialNull']
    c = {'MaxFrags': 3, 'Alphabet': NUM_ALPHA}
    return [
        {'kind': 'gen', 'name': 'texts', 'module': 'GenNumber', 'consts': dict(c, MaxLen=6 if q else 7, What='text'), 'invs': inv, 'mode': 'j03'},
        {'kind': 'gen', 'name': 'special', 'module': 'GenNumber', 'consts': dict(c, MaxLen=6, What='special'), 'invs': inv, 'mode': 'j03'},
        {'kind': 'gen', 'name': 'fixed', 'module': 'GenNumber', 'consts': dict(c, MaxLen=6, What='fixed'), 'invs': inv, 'mode': 'j03'},
        {'kind': 'gen', 'name': 'long', 'module': 'GenNumber', 'consts': dict(c, MaxLen=30, MaxFrags=8, What='text'), 'invs': inv, 'sim': 1000 if q else 20000, 'mode': 'j03'},
    ]


CHECKS['J03'] = {'stages': j03, 'rule': 'number texts of the documented grammar enumerated by length with all cuts into fragments, all non-finite spellings, all powers of two and neighbours for every integer kind, all exponents for floats; non-trivial: more than one character'}


def j04(tier):
    q = tier == 'quick'
    return [
        {'kind': 'mc', 'name': 'loop', 'module': 'MCIo', 'consts': {'MaxPieces': 3, 'MaxPiece': 3, 'MaxIntr': 2}, 'invs': ['Conforms', 'NeverBad']},
        {'kind': 'gen', 'name': 'scripts', 'module': 'GenIo', 'consts': {'MaxSkip': 15 if q else 39, 'MaxScript': 3 if q else 4}, 'mode': 'j04', 'validate': {'module': 'TraceIo'}},
    ]


CHECKS['J04'] = {'stages': j04, 'rule': 'writers that follow every script of full, short, interrupted, empty and failing writes after any number of full ones, over documents of every kind of call; non-trivial: the script was reached',
                 'technique': 'TLA+ specification of the exchange between the writer loop and the writer, model checked with TLC; fault scripts generated by TLC are run against the implementation and the recorded exchanges are validated by TLC as behaviours of the specification'}

BUF_LEAVES = ALL_LEAVES + ["htext"]
BUF_OPEN = ALL_OPEN + ["emptyenum"]


def buf_stages(mode, extra=None):
    inv = GINV + ['RoundTrip', 'CompleteExact', 'Idempotent']

    def f(tier):
        q = tier == 'quick'
        st = [
            {'kind': 'gen', 'name': 'small', 'module': 'GenBuffer', 'consts': consts(8 if q else 9, 3, 2, leaves=BUF_LEAVES, openers=BUF_OPEN, hints=1), 'invs': inv, 'seeds': 1, 'mode': mode},
            {'kind': 'gen', 'name': 'nested', 'module': 'GenBuffer', 'consts': consts(13 if q else 15, 5, 2, leaves=["text"], openers=["map", "seq", "tagged", "record"]), 'invs': inv, 'seeds': 1, 'mode': mode},
            {'kind': 'gen', 'name': 'deep', 'module': 'GenBuffer', 'consts': consts(40 if q else 80, 7, 4, leaves=BUF_LEAVES, openers=BUF_OPEN, hints=2, deep=True), 'invs': inv, 'sim': 300 if q else 5000, 'mode': mode},
        ]
        return st + (extra(tier) if extra else [])
    return f


def b03_extra(tier):
    q = tier == 'quick'
    return [
        {'kind': 'gen', 'name': 'fragments', 'module': 'GenText', 'consts': {'MaxLen': 3 if q else 4, 'MaxFrags': 4, 'Chars': 'short', 'FreeB': True}, 'mode': 'b03t'},
        {'kind': 'gen', 'name': 'many', 'module': 'GenText', 'consts': {'MaxLen': 40, 'MaxFrags': 12, 'Chars': 'all', 'FreeB': True}, 'sim': 400 if q else 8000, 'mode': 'b03t'},
    ]


CHECKS['B01'] = {'stages': buf_stages('b01'), 'rule': RULE_STREAM}
CHECKS['B02'] = {'stages': buf_stages('b02'), 'rule': RULE_STREAM + '; every prefix is examined and every end and fragment call is tried where nothing is open'}
CHECKS['B03'] = {'stages': buf_stages('b03', b03_extra), 'rule': RULE_STREAM + '; for fragment buffers: all sequences of fragments, long-lived or not, within the bounds'}


def n01(tier):
    q = tier == 'quick'
    inv = GINV + ['ViewsSound', 'SameTree']
    op = ALL_OPEN + ["emptyenum"]
    return [
        {'kind': 'gen', 'name': 'small', 'module': 'GenNested', 'consts': consts(8 if q else 9, 4, 2, openers=op, hints=1), 'invs': inv, 'seeds': 1, 'mode': 'n01'},
        {'kind': 'gen', 'name': 'variants', 'module': 'GenNested', 'consts': consts(11 if q else 13, 6, 1, leaves=["text", "tag"], openers=["map", "seq", "tagged", "enum", "record", "tuple", "val", "emptyenum"]), 'invs': inv, 'seeds': 1, 'mode': 'n01'},
        {'kind': 'gen', 'name': 'deep', 'module': 'GenNested', 'consts': consts(40 if q else 80, 8, 4, openers=op, hints=2, deep=True), 'invs': inv, 'sim': 300 if q else 5000, 'mode': 'n01'},
    ]


CHECKS['N01'] = {'stages': n01, 'rule': RULE_STREAM + '; each is also replayed with the target failing at every call, the value failing after every token, and as the variant of an enum'}


def serde_stages(mode):
    inv = GINV + ['ThereAndBack']
    op = ALL_OPEN + ["emptyenum"]

    def f(tier):
        q = tier == 'quick'
        st = []
        if mode == 'd01':
            st.append({'kind': 'gen', 'name': 'raw', 'module': 'GenSerde', 'consts': dict(consts(8 if q else 9, 3, 2, openers=op, hints=1), Kind='raw'), 'invs': inv, 'seeds': 1, 'mode': mode})
        return st + [
            {'kind': 'gen', 'name': 'small', 'module': 'GenSerde', 'consts': dict(consts(8 if q else 9, 4, 2, openers=op, hints=1, force=True), Kind='nice'), 'invs': inv, 'seeds': 2, 'mode': mode},
            {'kind': 'gen', 'name': 'variants', 'module': 'GenSerde', 'consts': dict(consts(12 if q else 14, 6, 2, leaves=["int", "tag"], openers=["seq", "tagged", "enum", "record", "tuple", "some"], force=True), Kind='nice'), 'invs': inv, 'seeds': 1, 'mode': mode},
            {'kind': 'gen', 'name': 'deep', 'module': 'GenSerde', 'consts': dict(consts(50 if q else 90, 8, 4, openers=op, hints=1, force=True, deep=True), Kind='nice'), 'invs': inv, 'sim': 600 if q else 8000, 'mode': mode},
        ]
    return f


CHECKS['D01'] = {'stages': serde_stages('d01'), 'rule': RULE_STREAM + ' with a serde form; each is also replayed with the serializer failing at every call and the value failing after every token'}
CHECKS['D02'] = {'stages': serde_stages('d02'), 'rule': 'serde data is the image of complete token sequences under SerdeOf, so all 29 kinds of serializer calls except char are covered and char and collect_str stand in for text; non-trivial: more than three tokens; each is also replayed with the stream failing at every call and the data failing at every node'}


def f01(tier):
    q = tier == 'quick'
    inv = GINV + ['StaysBalanced', 'KeepsValues']
    op = ALL_OPEN + ["emptyenum"]
    return [
        {'kind': 'gen', 'name': 'small', 'module': 'GenFlatten', 'consts': consts(8 if q else 9, 4, 2, openers=op, hints=1), 'invs': inv, 'seeds': 1, 'mode': 'f01'},
        {'kind': 'gen', 'name': 'nested', 'module': 'GenFlatten', 'consts': consts(13 if q else 15, 5, 2, leaves=["int"], openers=["map", "seq", "tuple", "record"]), 'invs': inv, 'seeds': 1, 'mode': 'f01'},
        {'kind': 'gen', 'name': 'variants', 'module': 'GenFlatten', 'consts': consts(11 if q else 13, 6, 1, leaves=["text", "tag"], openers=["map", "tagged", "some", "enum", "record_tuple", "emptyenum"]), 'invs': inv, 'seeds': 1, 'mode': 'f01'},
        {'kind': 'gen', 'name': 'deep', 'module': 'GenFlatten', 'consts': consts(40 if q else 80, 8, 4, openers=op, hints=2, deep=True), 'invs': inv, 'sim': 300 if q else 5000, 'mode': 'f01'},
    ]


CHECKS['F01'] = {'stages': f01, 'rule': RULE_STREAM + '; each is flattened onto every kind of target from some offset, and flattened twice, and also replayed with the target failing at every call and the value failing after every token'}


def v01(tier):
    q = tier == 'quick'
    inv = GINV + ['OneKind']
    op = ALL_OPEN + ["emptyenum"]
    return [
        {'kind': 'gen', 'name': 'small', 'module': 'GenCast', 'consts': consts(7 if q else 9, 4, 2, openers=op, hints=1), 'invs': inv, 'seeds': 1, 'mode': 'v01'},
        {'kind': 'gen', 'name': 'wrapped', 'module': 'GenCast', 'consts': consts(11 if q else 13, 3, 1, openers=["tagged", "some", "enum", "val", "valc"]), 'invs': inv, 'seeds': 8 if q else 60, 'mode': 'v01'},
        {'kind': 'gen', 'name': 'scalars', 'module': 'GenCast', 'consts': consts(8, 1, 1, openers=["tagged"]), 'invs': inv, 'seeds': 400 if q else 4000, 'mode': 'v01'},
        {'kind': 'gen', 'name': 'integers', 'module': 'GenCastNum', 'consts': {}, 'invs': ['RangesAgree'], 'mode': 'v01'},
        {'kind': 'gen', 'name': 'deep', 'module': 'GenCast', 'consts': consts(30 if q else 60, 8, 4, openers=op, hints=2, deep=True), 'invs': inv, 'sim': 100 if q else 3000, 'mode': 'v01'},
    ]


CHECKS['V01'] = {'stages': v01, 'rule': RULE_STREAM + '; all integers next to a power of two for every kind; each is asked for every kind of scalar through every wrapper; non-trivial: some answer is given'}


def l01(tier):
    q = tier == 'quick'
    li = ['NoneDangle', 'OnlyStaticClaim']
    lc = lambda steps, slots, src: {'Alloc': True, 'Steps': steps, 'Slots': list(range(1, slots + 1)), 'Sources': list(range(1, src + 1)),
                                    'Texts': '<- FewTexts' if slots == 2 else '<- MoreTexts', 'Tags': ["VALUE_IDENT", "T1"]}
    return [
        {'kind': 'gen', 'name': 'short', 'module': 'GenLabel', 'consts': lc(4 if q else 5, 2, 1), 'invs': li, 'mode': 'l01'},
        {'kind': 'gen', 'name': 'long', 'module': 'GenLabel', 'consts': lc(14 if q else 24, 3, 2), 'invs': li, 'sim': 1500 if q else 20000, 'mode': 'l01'},
        {'kind': 'gen', 'name': 'ident', 'module': 'GenIdent', 'consts': {'MaxName': 18 if q else 34}, 'invs': ['Antisym'], 'mode': 'l01'},
    ]


CHECKS['L01'] = {'stages': l01, 'rule': 'all histories of at most Steps operations (create from static, borrowed or owned text, tag, clone, make owned, move, drop, overwrite and free the borrowed text) on labels in two slots, and random longer ones on three; all pairs of indexes next to powers of two and pivots; all pairs of names and names differing in one place; non-trivial: more than one label, or unequal indexes or tags'}


def m01(tier):
    q = tier == 'quick'
    inv = GINV + ['FWriterAgrees', 'FIsBalanced']
    op = ALL_OPEN + ["emptyenum"]
    return [
        {'kind': 'gen', 'name': 'small', 'module': 'GenFmt', 'consts': consts(8 if q else 9, 4, 2, openers=op, hints=1), 'invs': inv, 'seeds': 1, 'mode': 'm01'},
        {'kind': 'gen', 'name': 'variants', 'module': 'GenFmt', 'consts': consts(10 if q else 12, 5, 1, leaves=["int", "tag", "number"], openers=["map", "seq", "tagged", "some", "enum", "record", "tuple", "emptyenum"]), 'invs': inv, 'seeds': 1, 'mode': 'm01'},
        {'kind': 'gen', 'name': 'deep', 'module': 'GenFmt', 'consts': consts(40 if q else 80, 8, 4, openers=op, hints=2, deep=True), 'invs': inv, 'sim': 300 if q else 5000, 'mode': 'm01'},
        {'kind': 'gen', 'name': 'numbers', 'module': 'GenFmtNum', 'consts': {}, 'invs': ['OnePiece'], 'mode': 'm01'},
        {'kind': 'gen', 'name': 'text', 'module': 'GenFmtText', 'spec': 'FmtSpec', 'consts': {'MaxLen': 2 if q else 3, 'MaxFrags': 2, 'Chars': 'all', 'FreeB': False}, 'invs': ['DbgRoundTrip', 'NoQuoteInside'], 'mode': 'm01'},
    ]


CHECKS['M01'] = {'stages': m01, 'rule': RULE_STREAM + '; texts of every character of the alphabet split in every way; each is formatted through every entry point, with a writer that fails at every write, and a value that fails after every token'}


STD_LEAVES = ["unit", "null", "bool", "int", "float", "char", "str", "string", "boxstr", "display", "display2", "debug", "shown", "number", "json",
              "binslice", "binarray", "vec_u8", "slice_u8", "array_u8", "none"]
STD_ALL = STD_LEAVES + ["some", "ref", "box", "dyn", "Ref", "vec", "slice", "array", "tuple", "mapslice", "btree", "hash"]


def s01(tier):
    q = tier == 'quick'
    inv = ['IsValue', 'HoldsData']
    return [
        {'kind': 'gen', 'name': 'leaves', 'module': 'GenStd', 'consts': {'MaxNodes': 1, 'Types': STD_ALL, 'Lens': [0]}, 'invs': inv, 'seeds': 80, 'mode': 's01'},
        {'kind': 'gen', 'name': 'small', 'module': 'GenStd', 'consts': {'MaxNodes': 3, 'Types': STD_ALL, 'Lens': [0, 1, 2]}, 'invs': inv, 'seeds': 1, 'mode': 's01'},
        {'kind': 'gen', 'name': 'nested', 'module': 'GenStd', 'consts': {'MaxNodes': 4 if q else 5, 'Types': ["int", "str", "none", "some", "array", "tuple", "mapslice", "btree", "vec", "dyn", "Ref"], 'Lens': [0, 1, 2]}, 'invs': inv, 'seeds': 1, 'mode': 's01'},
        {'kind': 'gen', 'name': 'wide', 'module': 'GenStd', 'consts': {'MaxNodes': 17, 'Types': ["int", "str", "tuple", "vec", "hash", "array"], 'Lens': list(range(17))}, 'invs': inv, 'sim': 300 if q else 4000, 'mode': 's01'},
        {'kind': 'gen', 'name': 'deep', 'module': 'GenStd', 'consts': {'MaxNodes': 24 if q else 40, 'Types': STD_ALL, 'Lens': [1, 2, 3, 4]}, 'invs': inv, 'sim': 600 if q else 8000, 'mode': 's01'},
        {'kind': 'gen', 'name': 'large', 'module': 'GenStd', 'consts': {'MaxNodes': 601, 'Types': ["int", "str", "vec", "slice", "mapslice", "hash"], 'Lens': [33, 129, 258, 300]}, 'invs': ['IsValue'], 'sim': 3 if q else 40, 'depth': 700, 'mode': 's01'},
    ]


def s04(tier):
    return stream_stages('s04')(tier) + [
        dict(st, mode='s04s', name='std-' + st['name'], **({'sim': st['sim'] // 2} if 'sim' in st else {}), **({'seeds': 10} if st['name'] == 'leaves' else {})) for st in s01(tier) if st['name'] in ('leaves', 'small', 'deep')]


CHECKS['S04'] = {'stages': s04, 'rule': RULE_STREAM + ' with at least one fragment; also values of the types of spec/SvalStd.tla, with the fragments the specification says are long-lived'}

CHECKS['S01'] = {'stages': s01, 'rule': 'behaviours are trees of the types of spec/SvalStd.tla with contents from its pools; each is built as a Rust value and streamed whole, as a computed value, through references to its parts, into a stream that fails at every call, and asked for every scalar; non-trivial: more than one call'}


def g01(tier):
    q = tier == 'quick'
    inv = ['IsValue', 'Distinct', 'HoldsData']

    def st(name, decls, lo, hi, sim=0, wide=False, pick=0):
        d = {'kind': 'gen', 'name': name, 'module': 'GenDerive', 'consts': {'Decls': decls, 'MinMods': lo, 'MaxMods': hi, 'Names': 997 if sim else pick or 1, 'Split': not sim and not pick, 'Wide': wide, 'Pick': 2 if pick else 0}, 'invs': inv, 'derive': True, 'mode': 'g01'}
        if name.startswith('large'):
            d['invs'] = ['IsValue']
        return dict(d, sim=sim) if sim else d
    enums = ["mixed", "units", "named", "unnamed"]
    return [
        st('structs', ["unit", "newtype", "named0", "named1", "named2", "unnamed0", "unnamed2"], 0, 2),
        st('wide', ["named3", "unnamed3"], 0, 1 if q else 2),
        st('enums', enums, 0, 1 if q else 2),
        st('enum-attrs', enums, 2, 2, wide=True),
        st('many', ["named2", "named3", "named4", "unnamed2", "unnamed3", "unnamed4"], 3, 3, 60 if q else 400),
        st('many-enums', enums, 3, 3, 60 if q else 400),
        st('large', ["named300", "unnamed300", "units300", "wide20"], 0, 0),
        st('large-attrs', ["named300", "unnamed300", "units300", "wide20"], 0, 2, pick=1 if q else 12),
    ] + ([] if q else [st('more', ["named3", "named4", "unnamed3", "unnamed4"], 4, 5, 300), st('more-enums', enums, 4, 5, 300)])


CHECKS['G01'] = {'stages': g01, 'rule': 'behaviours are declarations: every base shape of spec/SvalDerive.tla with every set of at most two attributes on its container, variants and fields (one for the wider ones), and random sets of three or more, over three pools of names, all field types and generics; those the specification accepts are compiled and every value streamed whole, as a computed value and into a stream that fails at every call; those it rejects must be refused by the compiler; trivial: none'}


def r01(tier):
    """The same behaviours in a build without an allocator."""
    q = tier == 'quick'

    def n(stages, pick, toks=None):
        r = []
        for st in stages:
            if st['name'] in pick:
                st = dict(st, crate='harness_noalloc', name=st['mode'] + '-' + st['name'])
                if toks and q and 'sim' not in st:
                    st['consts'] = dict(st['consts'], MaxToks=toks)
                if q and 'sim' in st:
                    st['sim'] = min(st['sim'], 150)
                r.append(st)
        return r
    own = [
        {'kind': 'gen', 'name': 'one-part', 'module': 'GenBuffer', 'consts': consts(6, 1, 1, leaves=ALL_LEAVES, openers=["tagged", "seq"], hints=1), 'invs': GINV, 'seeds': 20 if q else 1000, 'mode': 'r01b'},
        {'kind': 'gen', 'name': 'direct', 'module': 'GenNested', 'consts': consts(7 if q else 9, 3, 2, leaves=["int", "bool", "text", "tag", "none"], openers=["seq", "map", "record", "tuple", "enum", "tagged", "val"]), 'invs': GINV, 'seeds': 2 if q else 40, 'mode': 'n01'},
    ]
    labels = [dict(st, consts=dict(st['consts'], Alloc=False)) for st in l01(tier)[:2]]
    r = (n(buf_stages('r01b')(tier), ('small', 'deep'), 7) + n(own, ('one-part', 'direct')) + n([dict(st, mode='r01t') for st in b03_extra(tier)], ('fragments', 'many'))
         + n(n01(tier), ('small', 'variants'), 7) + n(serde_stages('d01')(tier), ('small',), 6) + n(serde_stages('d02')(tier), ('small',), 6)
         + n(f01(tier), ('small', 'deep'), 7) + n(stream_stages('s02')(tier), ('small', 'deep'), 7)
         + n(j01(tier), ('small',), 8) + n(m01(tier), ('deep',)) + n(labels, ('short', 'long')))
    if not q:
        r += n(stream_stages('s03')(tier), ('small', 'deep')) + n(j01(tier), ('deep',)) + n(m01(tier), ('small', 'variants')) + n(f01(tier), ('nested', 'variants'))
    return r


CHECKS['R01'] = {'stages': r01, 'rule': 'the behaviours of B01, B03, N01, D01, D02, F01, S02, S03, J01, M01 and L01 replayed in a build of the same crates without alloc and std: what the specification says needs no buffering must give the same result, the rest may be refused but must be exact where it is not; non-trivial as for those checks, every behaviour for buffers'}


def e01(tier):
    q = tier == 'quick'
    val = {'module': 'TraceFail'}
    std = ["unit", "int", "char", "str", "display", "number", "binslice", "binarray", "vec_u8", "none", "some", "Ref", "vec", "array", "tuple", "mapslice", "btree", "hash"]
    return stream_stages('e01', small=7, sim=150, toks=30)(tier) + [
        {'kind': 'mc', 'name': 'chain', 'module': 'MCFail', 'consts': {'MaxCalls': 4 if q else 6, 'Adapters': 2 if q else 3, 'MaxHeld': 2}, 'invs': ['Quiet', 'Told', 'Conforms'], 'extra': 'PROPERTY Ends\n'},
        {'kind': 'gen', 'name': 'adapters', 'module': 'GenStream', 'consts': consts(5 if q else 7, 3, 2, hints=1), 'mode': 'e01a', 'invs': GINV, 'seeds': 1, 'validate': val},
        {'kind': 'gen', 'name': 'adapters-deep', 'module': 'GenStream', 'consts': consts(24 if q else 40, 6, 3, hints=2, deep=True), 'mode': 'e01a', 'invs': GINV, 'sim': 40 if q else 1500, 'validate': val},
        {'kind': 'gen', 'name': 'std', 'module': 'GenStd', 'consts': {'MaxNodes': 3, 'Types': std, 'Lens': [1, 2]}, 'invs': ['IsValue'], 'seeds': 1, 'procs': 1 if q else 8, 'mode': 'e01s', 'validate': val},
    ]


CHECKS['E01'] = {'stages': e01, 'rule': RULE_STREAM + '; each is replayed once per possible failing call into plain and minimal streams, from every container and derived shape holding it, and through every adapter, serializer and writer, and with values that fail by themselves; also values of the types of spec/SvalStd.tla',
                 'technique': 'TLA+ specification of failure in a chain of adapters (SvalFail), model checked with TLC (MCFail, with liveness); token sequences generated by TLC are streamed through the implementation with the target failing at every call, and the recorded runs are validated by TLC as behaviours of the specification'}


def with_big(prop, sizes, deeper):
    """Large values, from the module and with the invariants of the check's first stage (nothing may depend on sizes)."""
    c = CHECKS[prop]
    f = c['stages']

    def g(tier):
        st = f(tier)
        seen, more = set(), []
        for s in st:
            if s['kind'] == 'gen' and 'MaxToks' in s['consts'] and s['mode'] not in seen and not s.get('crate'):
                seen.add(s['mode'])
                k = dict(s['consts'], MaxToks=1000000, Big=sizes if tier == 'quick' else deeper, Deep=False, MaxHints=0,
                         Leaves=ALL_LEAVES, Openers=[o for o in ALL_OPEN if prop != 'J01' or o != 'valc'])
                b = dict(s, name='big', consts=k, seeds=1, invs=['Sound'])
                b.pop('sim', None)
                more.append(b)
        return st + more
    c['stages'] = g
    c['rule'] += '; and large values: containers of up to %d entries, nesting %d deep, texts of %d characters and in %d pieces' % (max(sizes), max(sizes) // 4, 4 * max(sizes), max(sizes))


for p in ('S02', 'S03', 'S04', 'J01', 'B01', 'B02', 'B03', 'N01', 'D01', 'D02', 'F01', 'V01', 'M01'):
    with_big(p, [20, 270], [9, 17, 33, 65, 129, 260, 300, 600])

"""What each property is decided by."""
TU_FLAGS = {}
TU_LIBS = {}
NATIVE_ONLY = set()
TRUSTED = [
    'clang 18 front end and the opt passes sroa, simplifycfg, loop-simplify (C++ to IR)',
    'zv VC generator (/verif/zv): IR semantics, byte-granular object memory model, exception unwinding, loop cut rule',
    'z3 and cvc5 answers unsat',
    'axiomatised externals: operator new/delete, malloc/free, memcpy/memmove/memset/memcmp/strlen, __cxa_* exception runtime, std exception constructors',
    'libstdc++ headers are verified through inlined source, compiled with _GLIBCXX_ASSERTIONS',
]
ASSUMPTIONS = [
    'x86-64 little-endian, 64-bit size_t; the addresses of distinct objects are distinct and below 2^47',
    'input objects are smaller than 2^40 bytes; allocations of 2^46 bytes or more throw bad_alloc, smaller ones succeed',
    'stack depth is not modelled',
]
PROPS = {
    'C01': dict(tus=['C01'], level='proof', what='every accessor of the Zera reader on a buffer of arbitrary length and content'),
    'C02': dict(tus=['C02'], level='proof', what='every accessor of the MessagePack reader on a buffer of arbitrary length and content'),
}
PROPS['C03'] = dict(tus=['C03'], level='proof', what='Zera round trip')
PROPS['C04'] = dict(tus=['C04'], level='proof', what='MessagePack round trip')
PROPS['C05'] = dict(tus=['C05'], level='proof', what='Flex round trip')
TU_LIBS['C05'] = ['-lflatbuffers']
PROPS['C06'] = dict(tus=['C06z', 'C06m', 'C06f'], level='proof', what='integer accessors are exact or throw; kind mismatches throw')
TU_LIBS['C06f'] = ['-lflatbuffers']
PROPS['C11'] = dict(tus=['C11'], level='proof', what='ZBuffer ownership and content')
PROPS['C12'] = dict(tus=['C12'], level='proof', what='Base64 encoder and decoder')
PROPS['C13'] = dict(tus=['C13', 'C13s'], level='proof', what='Zera writer call-sequence automaton: every single step from an arbitrary state, all short sequences, long sequences natively')
PROPS['C14'] = dict(tus=['C14', 'C14s'], level='proof', what='Zera layout: bytes emitted by every writer step from an arbitrary state; whole documents through an independent parser natively')
PROPS['C14']['deep'] = {'H_step_istr1', 'H_step_bin0', 'H_step_bin1', 'H_step_key1', 'H_step_end2'}
for _p, _w in (('C15', 'lookup, membership, key listing and indexing agree'), ('C16', 'views alias the document and outlive the readers'),
               ('C17', 'owning readers survive copy, move, assignment')):
    PROPS[_p] = dict(tus=[_p + 'z', _p + 'm', _p + 'f'], level='proof', what=_w)
    TU_LIBS[_p + 'f'] = ['-lflatbuffers']
PROPS['C07'] = dict(tus=['C07'], level='proof', what='write_value over an abstract reader with any number of children, by induction on depth')
PROPS['C07']['tus'].append('C07n')
NATIVE_ONLY.add('C07n')
TU_LIBS['C07n'] = ['-lflatbuffers']
PROPS['C08'] = dict(tus=['C08'], level='proof', what='serialize overloads, builders, dyn::Value and the entry point against a writer that checks every event')
TENSOR = ['-I/opt/vp/compat', '-I/usr/include/eigen3']
PROPS['C09'] = dict(tus=['C09e', 'C09x', 'C09n'], level='proof', what='tensor decoding from an abstract document with arbitrary dtype, shape and data')
PROPS['C09']['deep'] = {'H_r3'}
PROPS['C10'] = dict(tus=['C10e', 'C10x', 'C10p', 'C10n'], level='proof', what='tensors written to a recording writer and decoded again, and through the concrete formats')
for _t in ('C09e', 'C09x', 'C09n', 'C10e', 'C10x', 'C10p', 'C10n'):
    TU_FLAGS[_t] = TENSOR
for _t in ('C09n', 'C10p', 'C10n'):
    TU_LIBS[_t] = ['-lflatbuffers']
NATIVE_ONLY.update(('C09n', 'C10n'))
NOTES = {
 'C09': 'Unbounded: an abstract document in which every kind, dtype code, dimension, rank up to 3 and data length (below 2^40) at any alignment is arbitrary, decoded for selected element types and fixed/dynamic extents; Eigen and xtensor code is verified through its inlined source. Higher ranks and hostile documents of the concrete formats natively (bounded).',
 'C08': 'Unbounded: vector, initializer_list and dyn arrays/maps with any number of opaque elements (dyn recursion by the contract being proved), scalars of every width, strings/binary/keys of any length and content; array, list, map and unordered_map at selected sizes with symbolic contents; random dynamic values natively (bounded).',
 'C10': 'Unbounded in content and extents (product below 2^36 elements) for Eigen matrices (fixed and dynamic, both storage orders) and row-major xtensor containers of rank 0..2, through a recording writer and an abstract reader (the formats themselves preserve the events: C03..C05); other layouts, rank 3 and the concrete formats at selected shapes with every content; all dtypes, layouts, ranks 0..5 and placements natively (bounded).',
 'C01': 'Unbounded proof: every accessor of the root reader and of child views, for a buffer of arbitrary length and content and arbitrary index/key; loops cut by inferred invariants, termination proved where listed. Deeper views are views at another reference offset of the same document (the root offset is itself arbitrary). Whole-document walks are explored natively in addition.',
 'C02': 'Unbounded proof over buffers of arbitrary length and content; mp_skip by its own contract, discharged separately; a child is proved to be a reader of the same class over a sub-span, which closes the induction on depth.',
 'C03': 'Unbounded in string/binary length and content and in all scalar values for single values and for pairs in arrays and maps (keys of any length); deeper and wider documents natively (bounded).',
 'C04': 'As C03 for MessagePack; libmsgpack-c packer code is verified through its inlined source.',
 'C05': 'As C03 for Flex through the inlined flatbuffers headers; string pairs and keys at selected lengths (bounded there), all contents symbolic.',
 'C06': 'Unbounded: every integer accessor on every stored integer encoding and value, every kind mismatch, for documents written with symbolic values and, for Zera and MessagePack, for arbitrary bytes.',
 'C07': 'write_value is proved for an abstract reader with any number of children by induction on depth (recursive calls are replaced by the contract being proved); concrete format pairs are explored natively on random nested documents (bounded).',
 'C11': 'Unbounded: every constructor, move, move assignment and destruction order on symbolic sizes and contents, deleter calls counted by ghost state.',
 'C12': 'Proof for every content at lengths 0..19 (encode), 0..13 (round trip), 0..9 with every position of the first foreign or padding character (decode); longer inputs natively (bounded).',
 'C13': 'Single-step contracts from an arbitrary writer state (any envelope, arena and payload contents; up to two open containers), plus all short call sequences symbolically and long ones natively.',
 'C14': 'Single-step contracts on the bytes each writer call emits from an arbitrary writer state, header and finish included; whole documents against an independent parser of ZERA.md natively. Some steps are proved in the thorough tier only.',
 'C15': 'Proof for maps of up to two entries and arrays with symbolic values and arbitrary index, keys at selected lengths with arbitrary content; larger maps natively.',
 'C16': 'Proof that returned views point into the document object and stay readable after the intermediate readers are destroyed; Flex at selected lengths.',
 'C17': 'Proof over copy, move, copy/move assignment and return of owning readers with the source destroyed or overwritten.',
}
for _k, _v in NOTES.items():
    PROPS[_k]['note'] = _v + ' Trusted: see trusted_base and assumptions in the evidence file.'

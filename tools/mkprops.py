#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
I='include/zerialize/'
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={'files':[I+f for f in files],'mechanism':[{'name':n,'where':I+w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':n,'meaning':m,'where':I+w} for n,m,w in state]
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('C01','Zera reader is memory-safe and total on arbitrary bytes',
 'Given any byte sequence of any length, constructing a Zera reader and applying any accessor (kind tests, scalars, strings, blobs, array size and indexing, map lookup, map keys) either returns a value or throws a deserialization error. It never reads outside the given bytes, never terminates or raises another exception, never loops forever, and every string, blob or key view it returns lies inside the given bytes.',
 ['inputs'],'every byte string (any length, any content), every accessor, every index and every lookup key, on root views and on views reached through them',
 'The tests decode a handful of well-formed documents and three malformed headers; hostile offsets, counts and truncations form an unbounded space.',
 ['protocols/zera.hpp'],[('ZView/ZeraDeserializer bounds checks (require_vr, off+size checks, parse header)','protocols/zera.hpp')],
 ['exceptions thrown by accessors','addresses read','returned views'])
p('C02','MessagePack reader is memory-safe and total on arbitrary bytes',
 'Given any byte sequence of any length, constructing a MessagePack reader and applying any accessor (kind tests, scalars, strings, blobs, array size and indexing, map lookup, map keys) either returns a value or throws a deserialization error. It never reads outside the given bytes, never terminates or raises another exception, never loops forever, and every string, blob or key view it returns lies inside the given bytes.',
 ['inputs'],'every byte string (any length, any content), every accessor, every index and every lookup key',
 'The tests decode documents produced by the library and a few hand-made ones; truncated, oversized and deeply nested encodings form an unbounded space.',
 ['protocols/msgpack.hpp'],[('mp_* header decoding and bounds checks','protocols/msgpack.hpp')],
 ['exceptions thrown by accessors','addresses read','returned views'])
p('C03','Zera writer/reader round trip is the identity on values',
 'Every value written through the Zera writer (null, booleans, 64-bit signed and unsigned integers, doubles bit-exactly, strings and binary of any content and length including empty, embedded NUL and the inline/out-of-line size boundary, arrays and maps nested in any way) is read back with the same kind and the same content, the same element order, and the same key-to-value association.',
 ['inputs','programs'],'every value of every kind at every nesting position, every string/binary length and content, every array length and map size the format can hold',
 'The tests round-trip a few dozen literal values; boundary lengths, counts and offsets form an unbounded space.',
 ['protocols/zera.hpp','serialize.hpp'],[('Writer value encoding, arena and envelope construction; reader decoding','protocols/zera.hpp')],
 ['values returned by the reader of the written bytes'])
p('C04','MessagePack writer/reader round trip is the identity on values',
 'Every value written through the MessagePack writer (null, booleans, 64-bit signed and unsigned integers, doubles, strings and binary of any content and length, nested arrays and maps) is read back with the same content, element order and key-to-value association: integers compare equal as integers (a non-negative integer may be classified as signed or unsigned), doubles are bit-exact, and indexing or lookup finds exactly the element written at that position or under that key whatever the encoded sizes of its siblings.',
 ['inputs','programs'],'every value of every kind at every nesting position, every string/binary length class, every array length and map size',
 'The tests round-trip a few dozen literal values; each of the format\'s ~35 leading-byte classes and every size class boundary must be skipped and decoded correctly.',
 ['protocols/msgpack.hpp','serialize.hpp'],[('msgpack Writer, mp_* decoding, mp_skip','protocols/msgpack.hpp')],
 ['values returned by the reader of the written bytes'])
p('C05','FlexBuffers writer/reader round trip is the identity on values',
 'Every value written through the Flex writer (null, booleans, 64-bit signed and unsigned integers, doubles, strings and binary of any content, nested arrays and maps with distinct keys) is read back with the same kind and content, the same element order and the same key-to-value association; strings and keys need not be NUL-terminated, and a key containing a NUL byte, which the format cannot hold, is rejected with a serialization error.',
 ['inputs','programs'],'every value of every kind at every nesting position',
 'The tests round-trip a few dozen literal values.',
 ['protocols/flex.hpp','serialize.hpp'],[('Flex writer frames and reader wrappers over flexbuffers','protocols/flex.hpp')],
 ['values returned by the reader of the written bytes'])
p('C06','Numeric accessors are exact or throw; kind mismatches always throw',
 'Reading a number through any integer accessor of the Zera, MessagePack or Flex reader yields exactly the stored mathematical integer, or throws a deserialization error when the stored value does not fit the requested type; values are never wrapped, truncated or sign-changed. Asking for a value of an incompatible kind (a number from a string, a string from a number, an element from a scalar, a size from a non-array, and so on) always throws a deserialization error, and the kind tests agree with what the accessors accept.',
 ['inputs'],'every stored value of every kind, every accessor, every result width and signedness',
 'The tests read back small literals with matching accessors; the full product of stored values, widths and signedness is never sampled.',
 ['protocols/zera.hpp','protocols/msgpack.hpp','protocols/flex.hpp'],[('as<T>() accessors, range and kind checks','protocols/')],
 ['values and exceptions from the as*() accessors'])
p('C07','Translation between formats preserves value and structure',
 'Translating any readable document from one format to another produces a document in which every null, boolean, integer, floating-point number, string, binary, array and map is present with the same content, order, and key association, and nothing is added, dropped, duplicated or merged. Values the source reader rejects make the translation throw rather than produce a partial or altered document.',
 ['inputs','programs'],'every source document (every kind at every nesting position, any size), every source reader and destination writer satisfying the library interfaces',
 'The tests translate a few fixed documents between fixed pairs, and some of those checks return true unconditionally.',
 ['translate.hpp','concepts.hpp'],[('write_value recursion over reader kinds','translate.hpp')],
 ['events received by the destination writer'])
p('C08','Builders and serialize() emit exactly the described document',
 'Serializing any combination of the builder helpers (zvec arrays and zmap maps), native scalars of every width, strings, binary, and standard containers (vector, list, array, initializer list, map, unordered map), or a runtime-built dynamic value, issues to the writer exactly one well-nested sequence of events describing it: declared sizes equal the number of elements emitted, each map entry is its key followed by exactly one value, elements appear in order, and each leaf is emitted once with its exact value and kind.',
 ['inputs','programs'],'every leaf value (all integer widths and signs, all floating-point values, all strings and binaries), every container size, every nesting',
 'The tests serialize fixed literals and compare a few read-back fields; leaf ranges, container sizes and combinations are unbounded.',
 ['zbuilders.hpp','internals/serializers.hpp','dynamic.hpp','serialize.hpp'],[('serialize_value overloads, builder functors, dyn::Value serialization','internals/serializers.hpp')],
 ['events received by the writer'])
p('C09','Tensor decoding validates dtype, rank and size before touching data',
 'Decoding a tensor from any document either throws a deserialization error or yields a tensor whose element type matches the stored dtype, whose rank and fixed extents match what was asked for, and whose element count times element size equals the stored data length exactly. It never reads outside the stored data, for any stored shape, dtype or data length, including shapes whose element count overflows.',
 ['inputs'],'every stored dtype code, shape (any dimensions), data length, and every requested element type and extents',
 'The tests decode tensors they encoded themselves; inconsistent, overflowing or mislabelled tensors are never sampled.',
 ['tensor/eigen.hpp','tensor/xtensor.hpp','tensor/utils.hpp'],[('dtype/shape/size validation in asXTensor/asEigenMatrix','tensor/')],
 ['exceptions, shape and data extent of the decoded tensor'])
p('C10','Tensor round trip is exact and zero-copy status is truthful',
 'A tensor of any supported element type and any shape that is serialized and decoded again (an Eigen matrix with the storage order it was written with) has the same shape, the same element type and bit-identical elements at the same coordinates. The decoded tensor reports zero-copy exactly when its elements live in the document\'s buffer, and a tensor reported as copied stays valid and unchanged after the document\'s buffer is gone. A dimension of 2^32 or more, which the format cannot hold, is refused with a serialization error.',
 ['inputs'],'every supported dtype, every shape, every element content, aligned and unaligned data placement',
 'The tests round-trip a few small tensors whose placement in the buffer is whatever the writer happens to choose.',
 ['tensor/eigen.hpp','tensor/xtensor.hpp','tensor/utils.hpp','tensor/view_info.hpp'],[('alignment check and copy fallback','tensor/')],
 ['elements and view info of the decoded tensor'])
p('C11','ZBuffer owns its bytes exactly once and exposes them unchanged',
 'However it is constructed (empty, from a vector, from malloc-ed memory, from memory with a custom deleter), moved or move-assigned, a buffer exposes exactly the bytes and size it was given, its copy and view operations agree with them, and its memory is released exactly once, by the deleter supplied, never before the last owner is destroyed or overwritten (self-move included). A moved-from buffer is empty, and a null pointer with a non-zero size or an empty deleter is rejected by an exception with nothing leaked or released twice.',
 ['inputs','histories'],'every size and content, every ownership mode, every sequence of construct/move/assign/destroy',
 'The tests build a few buffers and read them back; ownership histories and failure paths are not sampled.',
 ['zbuffer.hpp'],[('storage variants, custom deleter, move operations','zbuffer.hpp')],
 ['bytes, size, and calls of the deleter'])
p('C12','Base64 is RFC 4648-exact, round-trips, and rejects invalid characters',
 'For every byte sequence the encoder produces exactly the RFC 4648 padded encoding and the decoder returns the original bytes from it. For every text the decoder either throws a deserialization error or returns bytes: it throws exactly when a character outside the standard alphabet occurs before the first padding character, and otherwise returns exactly the whole bytes denoted by the characters before the padding; it never reads or writes outside its buffers.',
 ['inputs'],'every byte sequence and every text of every length',
 'The tests round-trip a few blobs; lengths modulo three, high-bit bytes and malformed texts are unbounded.',
 ['internals/base64.hpp'],[('base64Encode/base64Decode','internals/base64.hpp')],
 ['returned text and bytes'])
p('C13','Zera writer never turns misuse into a well-formed document',
 'Any sequence of writer calls that does not describe exactly one complete value (an end call without its matching begin or of the wrong kind, a key outside a map, two keys in a row, a map value without its key, closing a map after a dangling key, a second root value, finishing with an open container, a key longer than 65535 bytes, strings or binary of 4 GiB or more) makes one of those calls or finish throw a serialization error. Every call sequence that does describe one complete value is accepted (the sizes passed when opening a container are only reservation hints), and finishing without any value gives a null document.',
 ['histories','inputs'],'every sequence of writer calls with any arguments',
 'The tests exercise no more than a handful of misuse sequences.',
 ['protocols/zera.hpp'],[('Writer frame stack and begin_value/finish checks','protocols/zera.hpp')],
 ['exceptions from the writer'])
p('C14','Zera output conforms to the documented binary layout',
 'Every document the Zera writer produces has the documented layout: header magic, version, flags and sizes; 16-byte value references with the documented tag, inline flag, length and payload fields; array and object envelopes in the documented form with little-endian fields; payloads in the arena at their documented alignment (binary data 16-byte aligned from the start of the buffer); all reserved and padding bytes zero; and equal call sequences give identical bytes.',
 ['inputs','programs'],'every value of every kind and size at every nesting position',
 'The tests check a few offsets of one document; layout must hold for every document because other implementations read it.',
 ['protocols/zera.hpp','protocols/ZERA.md'],[('VR16 encoding, arena alignment, envelope emission, header','protocols/zera.hpp')],
 ['bytes of the finished buffer'])
p('C15','Map and array lookup is consistent and bounded',
 'In every document produced by the Zera, MessagePack or Flex writer, for every map the set of listed keys, membership tests and lookup by key agree: a key is listed exactly when membership holds and exactly when lookup succeeds, lookup returns the value written under that key even when keys share prefixes or contain arbitrary bytes (keys of one map being distinct), and lookup of an absent key throws. Array indexing succeeds exactly for indices below the array size and throws for every other index.',
 ['inputs','programs'],'every map (any number of entries, any key bytes and lengths), every probe key, every array length and every 64-bit index',
 'The tests look up a few literal keys; prefix-sharing, empty and long keys, and huge indices are unbounded.',
 ['protocols/zera.hpp','protocols/msgpack.hpp','protocols/flex.hpp'],[('contains / operator[] / mapKeys / index checks','protocols/')],
 ['results of contains, operator[], mapKeys, arraySize'])
p('C16','String and binary reads are zero-copy views of the document',
 'The string and binary views returned by the Zera, MessagePack and Flex readers, and the keys they list, alias the document\'s own bytes: no copy is made, and they stay valid and unchanged for as long as the document\'s bytes live, independent of the lifetime of the intermediate reader views used to reach them.',
 ['inputs','histories'],'every string/binary (inline or out of line, any length), every path of intermediate views, every order of destroying them',
 'The tests compare contents, not addresses, and keep the intermediate views alive.',
 ['protocols/zera.hpp','protocols/msgpack.hpp','protocols/flex.hpp'],[('view accessors return spans into the backing buffer','protocols/')],
 ['addresses of returned views'])
p('C17','Owning readers stay valid across copy, move and source destruction',
 'A reader that owns its bytes, when copied, moved, assigned or returned, yields a reader over the same document whose accessors give the same results, and it remains valid and unchanged after the original reader is destroyed or overwritten. A copy does not depend on storage owned by its source.',
 ['histories','inputs'],'every sequence of copy/move/assign/destroy on owning readers of any document size',
 'The tests never use a copied or moved-from reader after its source dies.',
 ['protocols/zera.hpp','protocols/msgpack.hpp','protocols/flex.hpp'],[('deserializer owning constructors, copy and move','protocols/')],
 ['accessor results after source destruction'])
p('C18','CBOR reader and writer meet the same safety and round-trip guarantees',
 'The CBOR reader is memory-safe and total on arbitrary bytes and reads back every value the CBOR writer wrote.',
 ['inputs'],'every byte string and every value','The CBOR tests are not built in this environment at all.',
 ['protocols/cbor.hpp'],[('CBOR header decoding','protocols/cbor.hpp')])
p('C19','JSON reader and writer round-trip every value',
 'Every value written through the JSON writer is read back with the same content, binary values through base64 tagging.',
 ['inputs'],'every value','The JSON tests are not built in this environment at all.',
 ['protocols/json.hpp'],[('yyjson based reader and writer','protocols/json.hpp')])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))

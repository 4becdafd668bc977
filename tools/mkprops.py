#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
H="zpp_bits.h"
def P(id,title,statement,over,text,why,mech,observe=None,state=None):
    a={"files":[H,"README.md"],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":"archive state","meaning":state,"where":H}]
    if observe: a["observe_at"]=[observe]
    return dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a)
L=[
P("C01","Serialize then deserialize reproduces every value",
 "For every supported type and value, under the same archive options, deserializing what was serialized succeeds, yields an equal value and consumes exactly the bytes produced. This holds for sequences of heterogeneous items, for every member-listing style, and for every byte container used as the buffer.",
 ["inputs","programs","configurations"],"all values of all supported types (nested arbitrarily) x all combinations of endianness, size policy and buffer type",
 "Each test serializes a handful of fixed values of one type with one option set; composition of types, boundary sizes and option combinations are unbounded.",
 [("output archive dispatch","basic_out::serialize_one overloads"),("input archive dispatch","in::serialize_one overloads")],"values and archive positions through the public API"),
P("C02","The wire bytes are exactly the documented minimal layout",
 "The bytes produced are exactly those the documentation describes: members in order with no padding or metadata, fixed scalars at their native width, a size prefix of the chosen size type for dynamic containers and none for fixed ones, one presence byte for optionals, the alternative id before variants, nothing for owning pointers, packed little-bit-first bitsets. The produced bytes never depend on what the buffer held before.",
 ["inputs","programs","configurations"],"all values of all supported types, all option sets, all previous contents of the output buffer",
 "Tests compare bytes of a few literal values on zeroed fresh buffers; a layout change or dependence on stale bytes for other types, sizes or buffers is invisible, and a round trip cannot see it since both sides change together.",
 [("scalar/bytes/members writing","basic_out::serialize_one(unspecialized)"),("size prefixes","basic_out::serialize_one(container)"),("bitset packing","basic_out::serialize_one(bitset)")],"bytes left in the caller's buffer"),
P("C03","Byte order options reverse exactly the multi-byte scalars",
 "With the byte order set to the non-native one, every fundamental and enum value wider than a byte, including size prefixes, is written byte-reversed and everything else is unchanged; the native, default and opposite spellings (little, big, network, native, swapped) agree with that; reading with the same order restores the value and byte order never changes the length of the output.",
 ["inputs","programs","configurations"],"all values and types x the five byte-order options",
 "The endian tests use a few integers and one struct; nested containers, size prefixes, varints, floats, enums, byte-copied structs under reversed order are not covered.",
 [("endian options","endian::little/big/network/native/swapped"),("reverse_copy paths","serialize_one fundamental branches"),("byte-copy gating","concepts::serialize_as_bytes / endian_independent_byte_serializable")]),
P("C04","Every strict prefix of a valid message is reported as out of range",
 "Deserializing any strict prefix of a serialized message (of types that carry their own lengths) fails with result_out_of_range, never succeeds, never reads past the given bytes and leaves the archive position within the data. The same holds when the prefix ends inside a varint, size prefix, variant id or bitset.",
 ["inputs","fault_sequences"],"every message of every type x every truncation point",
 "Tests truncate almost nothing; the truncation point space is the product of all types and all lengths.",
 [("remaining-size checks","in::serialize_one branches"),("short varint decoding","decode_varint"),("view bounds","in::serialize_one(container)")]),
P("C05","Arbitrary input bytes are decoded or rejected cleanly",
 "For arbitrary bytes, deserialization either succeeds or returns one of the documented error codes, without out-of-bounds access, undefined behaviour, leak or exception when an allocation limit is set; the position never leaves the buffer; and whatever was accepted re-serializes and decodes again to an equal value.",
 ["inputs","fault_sequences"],"all byte strings (random, mutated valid messages, spliced, boundary length fields) x all types",
 "The tests only feed well-formed data; malformed data is an unbounded space.",
 [("all input branches","in::serialize_one"),("variant id dispatch","in::serialize_one(variant, id)"),("destructor guards","associative containers, variants, optionals of non default constructible types")]),
P("C06","Fixed-size output never writes past its end and fails exactly when full",
 "Writing into a non-growing buffer succeeds if and only if the encoding fits in the remaining space, otherwise it returns result_out_of_range; in every case bytes outside the buffer and bytes after the final position of a successful write are untouched, and the items that did fit hold their exact encoding.",
 ["inputs","configurations"],"all values x all buffer capacities from 0 to past the encoded size x all offsets",
 "Tests have a couple of too-small buffers; exact-fit, off by one and offsets for each type branch are not enumerated.",
 [("capacity checks","basic_out::serialize_one non-resizable branches"),("varint capacity","serialize(varint) out"),("message length shifting","basic_out::serialize_one(by_protocol)")]),
P("C07","Growing output behaves as an append-at-position byte log",
 "For every history of output-archive operations (writes, resets, position changes, append, reserve, resize, custom growth factors, exact growth, no final fit) the buffer holds exactly the encodings at the positions where they were written with all other bytes preserved, the position is the end of the last write, and the buffer's final size follows the documented policy (trimmed to the written data by default, left as grown with no_fit_size, grown exactly when asked to).",
 ["histories","configurations"],"all operation sequences x all enlarger, fit, append, reserve and resize options x all byte containers",
 "Tests perform single-step histories with one option each.",
 [("growth","basic_out::enlarge_for"),("final fit","out::operator()"),("options","append/reserve/resize/enlarger/no_fit_size/no_enlarge_overflow")],state="m_position and the referenced container"),
P("C08","Allocation limits bound both growth and decoding",
 "With an allocation limit set, an output buffer never grows beyond it (no_buffer_space is returned instead) and no decoded container is sized beyond limit bytes (message_size is returned instead) no matter what lengths the input claims, while data that respects the limit is processed exactly as without it.",
 ["inputs","configurations","fault_sequences"],"all limits x all values and claimed lengths x all container kinds and element sizes",
 "Two or three fixed-limit tests exist; boundaries (limit-1, limit, limit+1), element-size division and nested containers are not covered.",
 [("output limit","basic_out::enlarge_for"),("input limit","in::serialize_one(container)"),("protobuf limit","pb::deserialize_field")]),
P("C09","Varints encode minimally and decode exactly",
 "Every integer or enum value of every width is encoded as its base-128 little-endian (zig-zag when asked) minimal varint of the advertised size, decodes back to itself wherever it lies in the buffer, whatever follows it and whichever decoder variant is built; an unterminated varint at end of input is result_out_of_range and one longer than its type's maximum is value_too_large.",
 ["inputs","configurations"],"all values of 8..64 bit signed/unsigned/enum types x both encodings x all distances to the end of the buffer x byte types x build modes",
 "Tests check a few constants far from the buffer end.",
 [("encode","serialize(varint) out"),("decode","decode_varint and the inline decoder"),("size","varint_size, varint_max_size")]),
P("C10","Variants restore the right alternative and reject unknown ids",
 "A variant is written as its alternative's id (index byte, or the user-supplied ids of any serializable type) followed by that alternative, and reading selects exactly the alternative with that id whatever the target held before; an unknown id yields bad_message, a valueless variant yields invalid_argument, and known-id reads/writes omit the id while using the same mapping.",
 ["inputs","programs"],"all variants (1..N alternatives, default-constructible or not), id kinds and values, previous states",
 "Tests use few variants with two or three ids and never an unknown id at every boundary.",
 [("ids","traits::variant"),("dispatch","in::serialize_one(variant, id)"),("known ids","known_id_variant, known_dynamic_id_variant")]),
P("C11","Deserialization result does not depend on the target's previous content",
 "Successfully deserializing into an object gives the same value whatever the object held before: containers are resized or cleared, optionals, pointers and variants switch state, and no stale element, key, alternative or pointee survives. Fixed-extent and unsized targets keep their own length.",
 ["inputs","histories"],"all pairs (previous value, message) of all supported types",
 "Tests always read into freshly constructed objects.",
 [("resize/clear","in::serialize_one(container), (associative_container)"),("replacement","in::serialize_one(optional), (variant), (owning_pointer), serialize(optional_ptr)")]),
P("C12","The first failing item stops the call and its exact error is reported",
 "When an item of a multi-item call fails, all earlier items are completely processed, no later item is touched, the returned code is that item's code, and the error predicates, the throwing form and the code agree; a user serialize function's error is propagated unchanged from any nesting depth and a null owning pointer or valueless variant is invalid_argument.",
 ["fault_sequences","inputs"],"all item sequences x failing position x error cause x nesting",
 "Tests check failure codes for single items only.",
 [("sequencing","serialize_many"),("result type","errc, success, failure, or_throw"),("propagation","all if(auto result...) sites")]),
P("C13","Composition is concatenation",
 "Serializing items in one call, in separate calls, as members of a struct, as a tuple or as a fixed array yields the same bytes, and any such grouping can be read with any other; the encoding of a composite is the concatenation of the encodings of its parts.",
 ["programs","inputs"],"all item lists x all groupings on the writing and reading side",
 "Tests pair one writer grouping with the identical reader grouping.",
 [("members","visit_members"),("tuple","serialize_one(tuple)"),("sequencing","serialize_many"),("byte copies","serialize_as_bytes")]),
P("C14","Views and spans alias without copying and honour their bounds",
 "Byte views (string_view, const byte spans) read from an input alias the input's own memory at the right offset and length and survive as long as it; mutable and non-byte spans are filled in place without reallocation, shrink to the encoded size when dynamic, and reject a longer encoding with result_out_of_range; unsized views take exactly the remaining bytes and fixed-extent ones exactly their extent, without a size prefix.",
 ["inputs"],"all contents, lengths, capacities and offsets for every view kind",
 "Tests check a few fixed strings.",
 [("views","in::serialize_one(container) const-byte branches"),("spans","container = {container.data(), size}")]),
P("C15","Compile-time and run-time serialization agree",
 "For every type usable in constant evaluation, serializing and deserializing at compile time gives exactly the same bytes, values and error codes as at run time, for every byte order and buffer byte type.",
 ["inputs","programs","configurations"],"all constant-evaluable types and values x options",
 "A handful of static_assert tests with fixed values; the constant-evaluated branches are separate code and are never compared with the run-time ones.",
 [("constant-evaluated branches","is_constant_evaluated() paths in basic_out and in"),("to_bytes/from_bytes","to_bytes_one, from_bytes")]),
P("C16","Member detection serializes every member once, in declaration order",
 "For every aggregate of 0..50 members of supported types, and for classes declaring their member count or protocol in any documented way, the detected count is the real one and every member is visited exactly once in declaration order, so all of them reach the wire in that order.",
 ["programs"],"all aggregates of 0..50 members x member types (nested aggregates, arrays, optionals, pointers) x listing styles",
 "Tests cover a few small counts; the 51-way enumeration is a hand-expanded table where any single entry can be wrong.",
 [("counting","access::number_of_members"),("visiting","access::visit_members, visit_members_types")]),
P("C17","apply calls the function with exactly the deserialized arguments",
 "Applying a function or member function to an archive calls it exactly once with the arguments decoded in order, returns its result unchanged (or reports success for void), consumes exactly the arguments' bytes, and on a decoding failure does not call it and reports that failure.",
 ["inputs","programs"],"all signatures (by value, reference, const, noexcept, member, functor) x all argument encodings, including truncated ones",
 "Tests cover two or three signatures with valid data.",
 [("apply","zpp::bits::apply overloads"),("traits","function_traits"),("result","value_or_errc")]),
P("C18","RPC dispatch delivers each request once to the bound function",
 "For every set of bound functions and every sequence of requests, the server invokes exactly the function bound to the received id exactly once with the sent arguments and the client receives exactly its return value, for id-carrying and body-only requests, free, member and opaque bindings; an unknown id yields not_supported without invoking anything, and truncated requests or responses yield an error without a false result.",
 ["histories","programs","fault_sequences"],"all binding sets (1..N functions, id types and widths), call sequences and corruptions",
 "Tests issue one or two calls on fixed bindings.",
 [("dispatch","rpc_impl::server::serve"),("client","rpc_impl::client::request/response/request_body"),("ids","bind, bind_opaque, id")]),
P("C19","Protocol-buffer output is valid and means the same to other implementations",
 "For every message type expressible with the protobuf protocol, and every value, the serialized body parses with an independent protobuf implementation using the corresponding schema to the same field values, whatever size prefix, byte order or buffer options surround it.",
 ["inputs","programs","configurations"],"all message types (scalars, zig-zag, fixed, enums, strings, bytes, repeated packed/unpacked, maps, nested) with default, explicit and reserved numbering x values x options",
 "Tests compare a few messages from the protobuf documentation.",
 [("encoding","pb::operator() out, pb::serialize_one"),("tags and numbers","pb::make_tag, pb::field_number, pb_field, pb_map, reserved"),("message length","basic_out::serialize_one(by_protocol)")]),
P("C20","Protocol-buffer input from any conforming encoder is decoded correctly",
 "Any conforming encoding of a message decodes to the values another protobuf implementation sees: fields in any order, packed or unpacked repeated scalars, several packed chunks, repeated occurrences of singular scalar or string fields and of map keys (last wins), canonical negative varints, absent fields at their defaults, and unknown fields skipped.",
 ["inputs"],"all conforming re-encodings (permuted, split, duplicated, with unknown fields of each wire type) of all messages",
 "Tests decode only what the library itself wrote plus two literal byte strings.",
 [("field loop","pb::deserialize_fields, deserialize_field"),("repeated/map","pb::deserialize_field container branches")]),
P("C21","Malformed protocol-buffer input is rejected safely",
 "Truncated or corrupted protobuf input never causes out-of-bounds access, exceptions, leaks or allocations beyond the input size class or the allocation limit; a message, string or packed field that claims more bytes than are available is rejected instead of silently shortened; and whatever is accepted re-encodes to an equal message.",
 ["inputs","fault_sequences"],"all byte strings, truncations and length corruptions for all message types",
 "Tests contain no malformed protobuf input.",
 [("length handling","pb::deserialize_field, in::serialize_one(by_protocol)"),("limits","alloc_limit in pb")]),
P("C22","Compile-time hashing, hex and ids compute the standard functions",
 "sha1 and sha256 of any literal or data equal the standard digests for every message length, hex decoding is the exact inverse of hex text, byte literals hold exactly their characters, joins and slices are plain concatenation and subranges, and an id derived from a hash or literal is its leading bytes at the requested width.",
 ["inputs"],"all message lengths 0..several blocks and contents, hex strings, slice bounds, id widths",
 "Tests check two or three vectors per function; block-boundary lengths fail to compile or hash wrongly without being noticed.",
 [("hashes","sha1, sha256"),("hex","string_literal operator, decode_hex"),("ids","serialize_id, slice, join")]),
P("C23","The wire format and results do not depend on how the library is built",
 "The same program produces identical bytes, values and error codes whichever supported compiler, standard library, optimisation level, inlining mode and varint decoder variant it is built with, so separately built peers interoperate.",
 ["configurations","inputs"],"clang/gcc x libc++/libstdc++ x -O0..-O3 x ZPP_BITS_INLINE_MODE x ZPP_BITS_INLINE_DECODE_VARINT x generated programs",
 "The test suite runs in a single build configuration.",
 [("build switches","ZPP_BITS_INLINE_MODE, ZPP_BITS_INLINE_DECODE_VARINT"),("compiler branches","#if __clang__/__GNUC__/feature tests")]),
P("C24","The raw-byte fast path is unobservable",
 "A type eligible for byte-wise copying is serialized to the same bytes as when its members are serialized one by one, types with padding, empty members, views of other data or custom serialization inside them are never copied raw, and explicit byte views (as_bytes, bytes) transfer exactly the object's bytes and count.",
 ["inputs","programs"],"all trivially copyable types (with and without padding, nested, arrays, custom serializers inside) x byte orders x containers of them",
 "Tests use a few padding-free structs.",
 [("eligibility","access::byte_serializable and its visitors"),("bytes","bytes, as_bytes"),("use sites","serialize_one array/container/aggregate branches")]),
P("C25","Size prefixes follow the selected size policy",
 "The size prefix of a dynamic container is exactly of the type selected by the archive option, overridden by a sized or unsized wrapper or alias on that item only, and absent when unsized; a container with more items than the size type can hold is written as that truncated number of items so the output stays self-consistent, and each policy reads back what it wrote.",
 ["inputs","configurations"],"all containers and lengths around size type limits x all policies (archive default, varint, sized, sized_t, static_, unsized)",
 "Tests use tiny containers, far below any size type limit.",
 [("policy","default_size_type options, sized_item, sized_item_ref"),("prefix","serialize_one<SizeType>(container)")]),
P("C26","Input archive position always marks the consumed prefix",
 "For every history of reads, resets and position changes on an input archive, each read decodes from exactly the current position, advances it by exactly the item's encoded size on success, processed and remaining data partition the buffer at the position, and the buffer is never modified; reading and writing archives over the same data stay independent.",
 ["histories","inputs"],"all operation sequences over multi-item buffers of every byte container kind",
 "Tests perform straight-line reads.",
 [("cursor","in::position, reset, remaining_data, processed_data"),("pairing","in_out, data_in_out, input, output")],state="m_position"),
P("C27","Owning pointers and recursive structures are rebuilt without sharing or leaks",
 "Object graphs built from unique, shared and optional pointers, optionals, vectors and variants of self-referencing types are rebuilt with the same shape and values at any depth and size, null optional pointers stay null, every pointee is newly owned by the result, and failure in the middle of a graph releases everything allocated so far.",
 ["inputs","programs","fault_sequences"],"all finite recursive values (lists, trees, mutually recursive types) x truncation points",
 "Tests contain a few small graphs.",
 [("pointers","serialize_one(owning_pointer), optional_ptr"),("recursion detection","access::self_referencing")]),
P("C28","Awaiting operations through zpp::throwing equals checking their codes",
 "When the zpp::throwing library is available, awaiting an archive call, apply, or an RPC request, serve or response continues with the operation's value when it succeeds and otherwise ends the coroutine at that operation with its exact code, and functions that are themselves throwing coroutines are called once with the transferred arguments, answer with the value they return, and pass their error on without an answer.",
 ["inputs","histories","fault_sequences"],"all item sequences, buffers and truncations x plain, member, opaque and throwing functions x archive options",
 "The tests of this interface are not even compiled without the zpp::throwing library.",
 [("awaiting codes","errc::operator co_await, value_or_errc::operator co_await"),("throwing dispatch","rpc_impl::server::call_binding_throwing, serve"),("throwing responses","rpc_impl::client::response")]),
P("C29","Exceptions of memory and user functions pass through without damage",
 "When memory cannot be had, or a user's serialize function, conversion, applied function or bound RPC function throws, in the middle of any archive operation, that very exception reaches the caller, nothing is leaked or destroyed twice, the objects and the archive stay valid, its position stays within its buffer, and the same operation succeeds with the same result when it is repeated on fresh state.",
 ["fault_sequences","inputs"],"all values x archive options x the n-th allocation or user call that throws",
 "Tests never make an allocation or a user function fail.",
 [("construction under failure","destructor_guard, access::make_unique, placement_new, traits::tuple results"),("growth","out::enlarge_for, in::serialize_one(container)"),("calls","apply, rpc call_binding")]),
P("C30","Archives share no state with each other",
 "Archives over separate buffers are independent: any operations of any archives on different threads are free of data races, and an archive that is created, used or destroyed inside another one's operation, such as in a user's serialize function or in a bound RPC function, gives the same bytes, values, positions and codes as it does alone, and so does the operation around it.",
 ["schedules","programs","inputs"],"all pairs of operations on separate archives, on different threads or nested",
 "Tests use one archive at a time on one thread.",
 [("local storage","serialize_one of associative containers and variants, pb map entries"),("tables","traits tables, is_unique and id tables"),("wrapped archives","pb::deserialize_fields, sub-archives")]),
]
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in L:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
print(len(L))

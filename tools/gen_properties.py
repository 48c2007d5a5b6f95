#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SER, DE, PV, ZZ = "dlhn/src/ser.rs", "dlhn/src/de.rs", "dlhn/src/prefix_varint.rs", "dlhn/src/zigzag.rs"
BODY, HS, HD, HM = "dlhn/src/body/mod.rs", "dlhn/src/header/ser.rs", "dlhn/src/header/de.rs", "dlhn/src/header/mod.rs"
FMT = "dlhn/src/format/"

p("C01", "Integers take the shortest prefix-varint form and decode back exactly",
  "Every 16/32/64-bit unsigned integer is written as the shortest prefix-varint form for its value (one byte below 2^7, one more byte per 7 further bits, then a marker byte plus the raw little-endian value), signed ones after zigzag mapping, and 8-bit ones as one raw byte. Decoding those bytes as the same integer type returns the same integer and consumes exactly those bytes. Any other byte string the integer decoder accepts yields the integer its payload bits spell.",
  ["inputs"], "every value of u8..u64 and i8..i64, and every byte string offered to each of the eight integer decoders",
  "The unit tests check the encoded LENGTH at powers of two and round-trip those same powers of two (one bit set, all others zero), so a bit moved, dropped or duplicated in any other value passes; no test decodes a byte string the encoder did not write.",
  [PV, ZZ, SER, DE],
  [("PrefixVarint::encode_prefix_varint / decode_prefix_varint for u16, u32, u64", PV), ("ZigZag", ZZ), ("serialize_{u,i}N / deserialize_{u,i}N", SER + ", " + DE)],
  observe=["bytes written by Serializer for one integer", "value and bytes consumed by Deserializer for one integer"])

p("C02", "Every supported value survives serialize/deserialize unchanged",
  "For every type built from units, booleans, integers, floats, chars, strings, byte buffers, options, sequences, tuples, structs, newtypes, string-keyed maps, enums and the crate's own big-number and date types, serializing any value produces exactly the documented wire layout (fields in order with no framing, counts and lengths as 64-bit varints, one-byte option tag, variant index then payload). Deserializing those bytes as the same type returns an equal value, floats bit for bit, and leaves no byte unread.",
  ["inputs", "programs"], "every type expressible in the supported serde data model, and every value of it, including strings, byte buffers, sequences and maps of every length",
  "The tests round-trip one or two small values per kind and a handful of shapes; nested shapes, long strings/buffers around the 128-byte and 4096-byte internal cut-overs, large counts, NaN payloads and high variant indices are never combined.",
  [SER, DE],
  [("impl serde::Serializer for &mut Serializer", SER), ("impl serde::Deserializer for &mut Deserializer, SeqDeserializer, MapDeserializer, StructDeserializer, VariantDeserializer", DE)],
  observe=["serialized bytes", "deserialized value", "bytes consumed"])

p("C03", "Streamed values come back in order, each consuming exactly its bytes",
  "Any sequence of values of any supported types written through one serializer is read back in the same order and unchanged by one or several successive deserializers over the same byte source. Each value consumes exactly its own encoding, is available as soon as its last byte has arrived, and never takes a byte of what follows. This holds however the source splits its data into short reads and however often reads are interrupted.",
  ["histories", "schedules"], "every sequence of messages, every way a source may chunk or interrupt the reads, every assignment of messages to successive deserializer objects",
  "The stream tests write two structs and read them from one contiguous slice; nothing exercises short or interrupted reads, mixed types, or checks how far the source was advanced.",
  [DE, HD, "dlhn/tests/stream.rs"],
  [("read_exact for every fixed-size piece; Take::read_to_string for long strings; chunked read_exact for long byte buffers", DE), ("Deserializer borrows the reader and buffers nothing", DE)],
  state=[("source position", "bytes of the source consumed so far", "the reader behind Deserializer::reader"), ("decoded list", "values returned so far", "caller")],
  observe=["every read call on the source", "values returned", "source position after each value"])

p("C04", "A truncated or failing source is always an error, never a value",
  "If the source ends, or reports an I/O failure, before the last byte of a value has been delivered, deserialization of that value returns an error. This holds for every type with a non-empty encoding, for headers, for dynamic bodies, and for every cut position and failure position.",
  ["crash_points", "fault_sequences", "inputs"], "every value, every strict prefix of its encoding, every I/O error kind at every read",
  "The only truncation test reads a third struct from an exhausted stream; no test cuts an encoding in the middle, and none uses a source that fails.",
  [DE, HD, BODY, PV],
  [("read_exact(..).or(Err(Error::Read)) on every read", DE), ("length comparison after Take::read_to_string", DE), ("decode_prefix_varint propagating io::Error", PV)],
  observe=["result of deserialize for every strict prefix and every injected source fault"])

p("C05", "A sink failure is always reported and never corrupts what was written",
  "Serializing to any sink returns success only if every byte of the encoding was accepted by the sink, and returns an error if the sink failed before that. Short writes and interrupted writes are completed transparently, and at every moment the bytes the sink has accepted are a prefix of the correct encoding. The same holds for writing headers.",
  ["fault_sequences", "crash_points", "schedules"], "every value and header, every sequence of short writes, interruptions and failures of the sink at every position",
  "All tests write to a Vec, which accepts everything and never fails, so neither the error path nor partial acceptance is executed by any test.",
  [SER, HS, "dlhn_derive/src/lib.rs"],
  [("write_all(..).or(Err(Error::Write)) on every piece, '?' between pieces", SER), ("write_all(..)? in every SerializeHeader impl and Header::serialize", HS)],
  state=[("accepted bytes", "bytes the sink took so far", "the writer behind Serializer::output")],
  observe=["every write call on the sink and its answer", "result of serialize"])

p("C06", "Decoding arbitrary bytes ends in a value or an error, never a crash",
  "Whatever bytes are offered, deserializing any type the crate is asked for (typed values, headers, dynamic bodies under any header, the crate's own types, the native big-number and date helpers, and types the format cannot decode) returns either a value or an error. It never panics, aborts, overflows the stack, or fails to terminate.",
  ["inputs", "programs"], "every byte string against every requested type or header; every deserialization request of the serde data model",
  "Tests only decode bytes the serializer produced for the same type; no hostile or random input is ever decoded.",
  [DE, HD, BODY, "dlhn/src/date.rs", "dlhn/src/date_time.rs", FMT + "date.rs", FMT + "date_time.rs", FMT + "big_decimal.rs", "dlhn/src/big_decimal.rs"],
  [("Result-returning decode paths", DE), ("overflow handling in date and date-time visitors", FMT + "date.rs, " + FMT + "date_time.rs"), ("recursion over the header", HD + ", " + BODY)],
  observe=["outcome of each decode call: value, error, panic, abort, timeout"])

p("C07", "Every header encodes and decodes back to itself, consuming exactly its bytes",
  "For every type header, writing it and reading it back returns an equal header and leaves the source exactly at the first byte after it, whatever follows. The bytes are the documented one-byte codes in prefix order, with the element count of tuples and enums as a 16-bit varint. A header that cannot be expressed (more than 65535 elements) is refused with an error instead of being written wrongly.",
  ["inputs"], "every header tree of any shape, arity and nesting, followed by any bytes",
  "Tests round-trip each leaf kind and three composites with at most three elements; counts of 128 and more, empty tuples, nested enums, and what follows the header are not tested.",
  [HS, HD, HM],
  [("Header::serialize, serialize_inner_box, serialize_inner_vec", HS), ("DeserializeHeader::deserialize_header", HD), ("code constants", HM)],
  observe=["bytes of Header::serialize", "header and position after deserialize_header"])

p("C08", "Only well-formed header bytes are accepted",
  "Reading a header from arbitrary bytes succeeds only if they start with a complete well-formed header, and then returns precisely the header those bytes spell; an unassigned type code anywhere in it is reported as invalid data and missing bytes as an error. Writing an accepted header again never takes more bytes than were read.",
  ["inputs"], "every byte string",
  "No test feeds an invalid or incomplete header to the decoder; all header decode tests use encoder output.",
  [HD, HM],
  [("match on the code byte with a rejecting default arm", HD), ("u16 prefix-varint element count", HD)],
  observe=["result and position of deserialize_header on arbitrary bytes"])

p("C09", "Dynamic bodies and typed values share one wire format",
  "For every type and value, decoding the typed encoding as a dynamic body under that type's header consumes exactly the same bytes and yields the body that corresponds to the value, and encoding that body (decoded or built by hand) gives back the same bytes. Conversely typed decoding of an encoded body yields the corresponding value.",
  ["inputs", "programs"], "every type expressible by a header and every value of it",
  "Body tests compare one literal per kind with its typed counterpart; nested composites, multi-entry maps with nested values, and multi-byte counts are not compared.",
  [BODY, SER, DE],
  [("impl Serialize for Body", BODY), ("Body::deserialize", BODY)],
  observe=["bytes of a typed value and of the corresponding Body", "Body returned by Body::deserialize and bytes consumed"])

p("C10", "Body validation is exact",
  "Validating a dynamic body against a header returns true if and only if the body conforms to the header at every level: same kind, every element of arrays and maps, equal arity and element-wise conformance of tuples, an in-range variant whose payload conforms. Every body decoded under a header validates against it, and every body that validates decodes back to itself under that header.",
  ["inputs"], "every pair of header and body",
  "Tests try each kind against itself and against Unit, one level deep; a mismatch in the second element of a nested collection, an extra or missing tuple element, or a wrong sibling kind is not covered.",
  [BODY],
  [("Body::validate", BODY)],
  observe=["boolean returned by validate", "Body::deserialize of the serialized body"])

p("C11", "A derived header describes exactly what derived serialization writes",
  "For every non-generic struct or enum that derives both, without serde attributes that change the representation as a whole (tag, untagged, flatten, with, into, transparent), the derived header describes the bytes serialization writes for every value: non-skipped fields in declaration order, one entry per variant, counts correct at any size, fields skipped for serialization left out of structs and of variants alike. Decoding those bytes dynamically under the derived header therefore consumes them all and yields the corresponding values. A declaration whose header cannot be expressed (fields skipped for some values only, more than 65535 members) is refused at compile time.",
  ["programs", "inputs"], "every struct/enum declaration the derive macro accepts, with every combination of skip attributes, and every value of it",
  "Six small declarations are tested, by comparing header bytes with literals; no test compares the header with the bytes actually serialized, and no declaration has attributes on variant fields, more than four members, or nesting.",
  ["dlhn_derive/src/lib.rs", "dlhn_derive/src/prefix_varint.rs"],
  [("derive_serialize_header", "dlhn_derive/src/lib.rs"), ("is_skip_field / has_skip_serializing_if", "dlhn_derive/src/lib.rs"), ("u16 prefix varint of the member count", "dlhn_derive/src/prefix_varint.rs")],
  observe=["header bytes of the derived type", "serialized bytes of its values", "Body::deserialize of those bytes under that header"])

p("C12", "The header of every built-in type describes that type's values",
  "For every type with a built-in header (primitives, options, vectors, maps, tuples of 1 to 16 elements, byte buffers, strings, the crate's and the native big-number and date types, and any nesting of these) the static header is the one that describes how its values are serialized. It is also byte-for-byte the encoding of the corresponding header value.",
  ["programs", "inputs"], "every type composed from the built-in header implementations, and every value of it",
  "Header tests compare each implementation with a literal once (tuples only as spot checks); no test serializes a value and reads it under the type's own header, or composes implementations beyond one level.",
  [HS],
  [("impl SerializeHeader for each type, tuple_impls!", HS)],
  observe=["bytes of T::serialize_header", "Body::deserialize of values of T under that header"])

p("C13", "Big numbers keep their value and have one canonical encoding",
  "Converting an arbitrary-precision integer or decimal into the crate's type, encoding, decoding and converting back yields the numerically same number; equal numbers always give identical bytes (zero as one zero byte, integers as minimal little-endian two's complement, decimals with trailing zeros removed) and different numbers different bytes. The crate's types and the native serialization helpers write the same bytes, accept the same byte strings, consume the same number of bytes and denote the same number.",
  ["inputs"], "every big integer and decimal of any size, sign and scale, in every equivalent representation; every byte string offered to the decoders",
  "Tests use about twenty integers at powers of 256 and ten decimals, almost all with coefficient 1; trailing zeros, negative coefficients, large scales, and non-canonical input bytes are not covered, nor is agreement of the two APIs on decoding.",
  ["dlhn/src/big_uint.rs", "dlhn/src/big_int.rs", "dlhn/src/big_decimal.rs", FMT + "big_uint.rs", FMT + "big_int.rs", FMT + "big_decimal.rs"],
  [("From/Into conversions with num-bigint and bigdecimal", "dlhn/src/big_int.rs, dlhn/src/big_uint.rs, dlhn/src/big_decimal.rs"), ("native helper modules", "dlhn/src/format/big_*.rs")],
  observe=["bytes of wrapper and of native helper", "value after converting back", "bytes consumed"])

p("C14", "Dates and instants survive exactly and impossible ones are refused",
  "Every calendar date and every instant representable by the native time types is preserved by conversion, encoding, decoding and conversion back, with the instant (not the UTC offset) preserved to the nanosecond, including dates before 2000 and instants before 1970. An instant whose date under the offset zero is beyond the native range is written exactly or refused. The crate's types and the native helpers write the same bytes. Bytes denoting no calendar date or an instant outside the supported range never become a native date or instant: the native helpers and the conversions report an error.",
  ["inputs"], "every date, every instant with every UTC offset, every byte string offered to the four decoders",
  "Tests use six dates and eight instants in UTC; leap days, year ends, negative years, offsets, sub-second parts before 1970, and invalid encodings are not covered.",
  ["dlhn/src/date.rs", "dlhn/src/date_time.rs", FMT + "date.rs", FMT + "date_time.rs"],
  [("year/ordinal offsets", "dlhn/src/date.rs, dlhn/src/format/date.rs"), ("unix seconds plus nanosecond", "dlhn/src/date_time.rs, dlhn/src/format/date_time.rs"), ("range checks in TryInto and in the native visitors", "dlhn/src/date.rs, dlhn/src/date_time.rs, dlhn/src/format/")],
  observe=["bytes of wrapper and native helper", "native value after decode or TryInto", "errors"])

p("C15", "What the format cannot express is refused, not written wrongly",
  "Serializing a value the format has no representation for returns an error: a map with any key that is not a string, a 128-bit integer, a sequence or map whose length is not declared up front. Conversely, whenever serialization of a value returns success, the bytes written decode back to that value.",
  ["inputs", "programs"], "every value of the whole serde data model, supported or not, at any nesting depth",
  "One test per unsupported key kind at most; sequences and maps of undeclared length, unsupported kinds nested inside supported ones, and empty maps are not tested.",
  [SER],
  [("MapKeySerializer rejecting every non-string key", SER), ("serialize_seq / serialize_map on the declared length", SER)],
  observe=["result of serialize", "bytes written when it succeeds"])

p("C16", "Malformed content is rejected, never misread as some value",
  "Decoding a value from bytes that violate its type's encoding returns an error: a boolean or option tag other than 0 or 1, a string that is not valid UTF-8, a char that is not exactly one character, a variant index outside the enum (for typed and dynamic decoding alike, whatever the index), an impossible date or instant for the native helpers. Whenever decoding does succeed, the value is exactly the one those bytes spell.",
  ["inputs"], "every type and every byte string offered for it",
  "Tests never decode bytes that were not produced by the serializer for the same type, so no rejection path is exercised.",
  [DE, BODY],
  [("tag match in deserialize_bool", DE), ("from_utf8 / read_to_string in deserialize_string", DE), ("deserialize_char, deserialize_identifier", DE), ("variant lookup in Body::deserialize", BODY)],
  observe=["result, value and bytes consumed of decode on arbitrary and mutated bytes"])

p("C17", "Decoding memory is bounded by the bytes actually received",
  "While decoding untrusted bytes, the memory allocated stays within a fixed multiple of the bytes actually received plus a fixed allowance, whatever lengths and counts those bytes declare. A short input that merely claims a huge string, byte buffer, sequence, map, body or header cannot make the decoder reserve memory for data that never arrives.",
  ["inputs"], "every byte string against every type and header whose elements occupy at least one byte",
  "No test decodes an input whose declared length exceeds its content, and none measures allocation.",
  [DE, BODY, HD],
  [("incremental reads for strings >= 128 and byte buffers > 4096 bytes", DE), ("no size hint given to collection visitors", DE), ("vector pre-allocation in Body::deserialize and deserialize_header", BODY + ", " + HD)],
  observe=["peak allocation during one decode call versus bytes consumed"])

p("C18", "Encoding depends on the value alone, not on history or optional features",
  "The bytes written for a value are the same whatever was written before it, whichever serializer object writes it, and whichever optional features the crate is built with (it builds with every set of them). Values of one type that differ have different encodings, and no encoding is a proper prefix of another of the same type.",
  ["histories", "configurations", "inputs"], "every value after every history of earlier operations, under every combination of the crate's optional features",
  "The tests run in one feature configuration and serialize each value once from a fresh serializer (one test repeats a struct twice).",
  [SER, "dlhn/Cargo.toml", "dlhn/src/lib.rs", "dlhn/src/big_decimal.rs", "dlhn/src/date_time.rs"],
  [("Serializer holds no state but the sink", SER), ("cfg(feature) gates cover conversions only", "dlhn/src/*.rs")],
  observe=["bytes written for a value in different histories and builds"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q, ensure_ascii=False) + "\n")

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the long text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(q.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

T = "crates/toon/src/"
ENC = [T+"encode/encoders.rs", T+"encode/primitives.rs", T+"encode/writer.rs", T+"ser/stream.rs", T+"ser/value_builder.rs"]
DEC = [T+"decode/scanner.rs", T+"decode/parser.rs", T+"de/mod.rs"]

p("C01", "Encode then decode returns the original value",
  """For every JSON value and every choice of delimiter and indent width (1 or more), decoding the encoded text with the same options, strict or
  lenient, yields that value: same types, exact numbers, exact strings, same array order and the same empty containers at every depth.
  Object keys come back in their original order, except that the rows of a tabular array take the key order of its first row. The encoding of a value is
  always accepted by strict decoding.""",
  ["inputs", "configurations"], "all JSON values (any nesting, keys, strings, numbers, array lengths) x {comma,tab,pipe} x indent 1..8 x strict/lenient decoding, through every encode entry point",
  "Unit tests round-trip a few dozen hand-written values with default options; interactions (empty object followed by a sibling, nested empty arrays, list items whose first field is a container, indent other than 2) are unbounded.",
  ENC+DEC, [("encode_value / encode_list_item_object", T+"encode/encoders.rs"), ("streaming serializer", T+"ser/stream.rs"), ("Parser::parse_node/parse_object/parse_array", T+"decode/parser.rs")],
  ["toon_rs::encode_to_string", "toon_rs::ser::to_string", "toon_rs::decode_from_str"])

p("C02", "Encoder output is the canonical TOON text of the value",
  """For every JSON value and every delimiter and indent width, the encoder's text is exactly the canonical TOON document: inline form for arrays of primitives,
  tabular form if and only if all elements are non-empty objects with the same key set and primitive values, list form otherwise, every header stating the true element
  count and the active delimiter, nesting shown by indent-width multiples, and list items with their first field on the hyphen line.
  The text has no trailing newline, no trailing spaces, no blank lines and no tabs outside the tab delimiter.""",
  ["inputs", "configurations"], "all JSON values x delimiters x indent widths",
  "Tests compare a fixed list of documents; the layout rules interact across nesting, table detection, delimiter and indentation for every value.",
  ENC, [("is_tabular_array", T+"encode/encoders.rs"), ("encode_keyed_array/encode_array/encode_list_item*", T+"encode/encoders.rs"), ("SeqSer/MapSer and *_json helpers", T+"ser/stream.rs"), ("LineWriter", T+"encode/writer.rs")],
  ["toon_rs::encode_to_string", "toon_rs::ser::to_string"])

p("C03", "Numbers are written canonically and read back exactly",
  """Every finite number, in every position a number can occupy, is written in plain decimal without exponent, superfluous zeros or a negative zero, and decodes to
  exactly the same number (all i64 and u64 integers exactly, every f64 bit for bit except that -0 becomes 0); NaN and infinities are written as null.
  Decoding any numeric token of the JSON grammar, including exponent forms, yields the nearest representable number, and integer tokens in the 64-bit range yield exact integers.""",
  ["inputs"], "all i64, u64, f32, f64 values x every position (root, field, list item, inline array, table cell, hyphen line) and all numeric tokens",
  "Tests check about twenty literals; the number space is 2^64 per type and each syntactic position has its own formatting call.",
  [T+"number.rs", T+"encode/primitives.rs", T+"encode/encoders.rs", T+"ser/stream.rs", T+"decode/parser.rs"],
  [("format_canonical_f64", T+"number.rs"), ("parse_scalar_token / classify_numeric_hint", T+"decode/parser.rs"), ("has_forbidden_leading_zeros", T+"number.rs")],
  ["toon_rs::encode_to_string", "toon_rs::decode_from_str"])

p("C04", "Any string survives in any position and is quoted exactly when needed",
  """Every Unicode string, used as a value or as a key in any position (root, field, list item, inline array, table cell, table column, hyphen line) and under any delimiter, decodes back to the
  same string and never to another type or structure. A value is quoted exactly when it is empty, has leading or trailing space, looks like a literal or number, starts with a hyphen, or contains the active delimiter,
  a colon, quote, backslash, bracket, brace or control character; a key exactly when it is not an identifier with dots; quoted text uses only the defined escapes.""",
  ["inputs", "configurations"], "all Unicode strings x positions x delimiters",
  "A string's safety depends on its content, its position and the delimiter together; tests sample a few of each.",
  [T+"encode/primitives.rs", T+"decode/parser.rs", T+"decode/scanner.rs"],
  [("needs_quotes / format_key / escape_and_quote", T+"encode/primitives.rs"), ("try_unescape_json_string, split_delim_aware", T+"decode/parser.rs"), ("find_unquoted_colon", T+"decode/scanner.rs")],
  ["toon_rs::encode_to_string", "toon_rs::decode_from_str"])

p("C05", "Every valid TOON document decodes to the value it denotes",
  """Decoding a valid TOON document gives exactly the value the format defines for it, also when it is not in the encoder's canonical form: optional quoting, extra escapes, \\u escapes, mixed delimiters between
  arrays, list form where a table would do, exponent numbers, blank lines between fields, a final newline, spaces around delimiters and after colons, nested containers in any combination, and headers that give an array its own delimiter. The older forms still read (a table headed `@` below its key or alone, its rows as list items; a list without a header) give their rows and items, too.
  Lenient decoding also takes blank lines inside arrays and tables and a block of any depth below its key or header.""",
  ["inputs", "configurations"], "all valid documents (random layout choices over random values) x strict/lenient x indent width",
  "Decoder tests use a few dozen literal documents; the encoder only exercises one canonical layout per value.",
  DEC, [("Parser", T+"decode/parser.rs"), ("scan", T+"decode/scanner.rs"), ("parse_array_header", T+"decode/parser.rs")],
  ["toon_rs::decode_from_str", "toon_rs::decode::parser::parse_to_value_with_strict"])

p("C06", "Strict decoding rejects every structurally broken document",
  """In strict mode a document is rejected when an array's declared length differs from its items or rows, a table row's width differs from its header, indentation uses tabs or is not a multiple of the indent width,
  a blank line lies inside an array or table, a quoted string or key is unterminated or has an invalid escape, a header's or row's delimiter disagrees with the declared one, a line is indented deeper than anything that could own it,
  or lines remain that belong to no value; and an older table (headed `@`) is rejected for a repeated or unquoted special column, another delimiter than the three, no rows, or a row of another width. Strict decoding never accepts a document by silently dropping part of it.""",
  ["inputs", "fault_sequences"], "every valid document x every single corruption of the listed kinds at every place it applies, at any depth",
  "Each rule is tested at one or two places; a corruption can occur at any depth, in any array form, in any item.",
  DEC+[T+"decode/validation.rs"], [("validate_indentation_with_size", T+"decode/validation.rs"), ("parse_array_with_length_check, parse_tabular_rows", T+"decode/parser.rs"), ("check_delimiter_mismatch", T+"decode/parser.rs")],
  ["toon_rs::decode_from_str"])

p("C07", "Decoding arbitrary text never panics, overflows or hangs",
  """For every input text and every combination of options, decoding into a dynamic value or into any typed target terminates with a value or an error; it never panics, overflows, exhausts the stack on
  moderately nested input, or slices inside a multi-byte character. The same holds for the public scanner, the header/line parser, path expansion and the reader entry point.""",
  ["inputs", "configurations"], "all UTF-8 texts (random bytes, token soups, mutated valid documents, deep nesting) x all options x decode entry points, in every feature set",
  "Tests feed well-formed documents; malformed text near multi-byte characters, huge counts and truncated quotes is open-ended.",
  DEC+[T+"decode/path_expand.rs", T+"de/direct.rs"], [("parse_header slicing", T+"decode/parser.rs"), ("parse_bracket_content", T+"decode/parser.rs"), ("scan", T+"decode/scanner.rs")],
  ["toon_rs::decode_from_str", "toon_rs::decode::scanner::scan", "toon_rs::decode::parser::*"])

p("C08", "Lenient decoding agrees with strict decoding on accepted documents",
  """Whenever strict decoding accepts a document, lenient decoding of the same document with the same other options accepts it too and yields the same value; strictness only ever adds rejections.""",
  ["inputs", "configurations"], "all texts accepted by strict decoding x all other options",
  "No test compares the two modes on the same document except for a few literals.",
  DEC+[T+"decode/path_expand.rs"], [("strict flag checks in Parser", T+"decode/parser.rs"), ("validation only in strict", T+"de/mod.rs")],
  ["toon_rs::decode_from_str"])

p("C09", "Re-encoding a decoded document is a stable normal form",
  """For every text that strict decoding accepts, encoding the decoded value and decoding again gives the same value, and encoding once more gives byte-identical text, under every delimiter and indent width; encoding
  is deterministic, so equal values always give identical text.""",
  ["inputs", "configurations"], "all texts accepted by strict decoding (not only encoder output) x delimiters x indent widths",
  "Idempotence is tested on a handful of canonical documents only.",
  ENC+DEC, [("encode_value", T+"encode/encoders.rs"), ("Parser", T+"decode/parser.rs")], ["toon_rs::decode_from_str", "toon_rs::encode_to_string"])

p("C10", "All encoding entry points produce the same text",
  """For every value and every option combination, key folding included, the streaming encoder, the value-based encoder, the writer variants and the direct value encoder produce byte-identical text, whether the
  value is given dynamically or as a typed value that serializes to the same data, also one that can be serialized only once.""",
  ["inputs", "configurations"], "all JSON values and typed values x all encode options (delimiter, indent, key folding, flatten depth)",
  "There are parallel implementations of every layout rule; tests exercise each on different sample values.",
  ENC+[T+"ser/mod.rs", T+"lib.rs"], [("encode_*", T+"encode/encoders.rs"), ("*_json helpers", T+"ser/stream.rs"), ("ValueSerializer", T+"ser/value_builder.rs")],
  ["toon_rs::encode_to_string", "toon_rs::ser::{to_string,to_writer,to_string_streaming,to_writer_streaming}", "toon_rs::encode::encode_value_to_string", "toon_rs::encode_to_writer"])

p("C11", "Typed values round-trip through serde",
  """Any value of a type built from structs, nested and optional fields, tuples, newtypes, vectors, string-, integer-, bool- or char-keyed maps, all integer widths up to 64 bits, floats, chars, strings and enums with unit, newtype, tuple and struct variants,
  encodes to the text of its JSON data-model equivalent and decodes back, strict or lenient, to an equal value. Decoding into a type whose shape, integer range or variant set does not fit the document is an error, never a wrong value.""",
  ["inputs", "configurations"], "all values of a family of Rust types covering the serde data model x delimiters x folding/expansion off and on",
  "Tests cover a few structs with primitive fields and one enum; the serializer and deserializer have one method per serde data-model kind.",
  [T+"ser/stream.rs", T+"ser/value_builder.rs", T+"de/mod.rs"], [("StreamingSerializer / MapSer / SeqSer", T+"ser/stream.rs"), ("Deserializer", T+"de/mod.rs")],
  ["toon_rs::encode_to_string", "toon_rs::ser::to_string", "toon_rs::decode_from_str"])

p("C12", "Key folding is lossless, depth-limited and collision-free",
  """With key folding on and any flatten depth, the encoded text never repeats a key within an object and decoding it with path expansion on gives back the original value whenever the value's own keys contain no dots.
  A folded key joins only identifier segments of single-key objects and has at most flatten-depth segments, a chain that fits is folded completely, and with depth 0 or 1 nothing is folded.""",
  ["inputs", "configurations"], "all values without dotted keys (chains, siblings, arrays of objects) x flatten depth None/0..N x delimiters x indent, plus values with dotted sibling keys for the no-repeated-key part",
  "Tests fold a few fixed chains at the root; collisions and chains under list items or siblings are combinatorial.",
  [T+"encode/encoders.rs", T+"ser/stream.rs", T+"decode/path_expand.rs"], [("try_fold_keys, encode_folded_value", T+"encode/encoders.rs"), ("MapSer buffering", T+"ser/stream.rs"), ("expand_paths", T+"decode/path_expand.rs")],
  ["toon_rs::encode_to_string", "toon_rs::ser::to_string", "toon_rs::decode_from_str"])

p("C13", "Path expansion is the deep merge of dotted keys",
  """With path expansion on, every unquoted key whose dot-separated segments are all identifiers becomes nested objects, deep-merged in document order with its siblings at every depth, inside arrays and tables too; quoted keys and other keys stay literal, byte for byte.
  When a path meets a non-object value or repeats one, strict decoding fails and lenient decoding keeps the last value; with expansion off every key stays as written.""",
  ["inputs", "configurations"], "all documents with dotted, quoted-dotted and conflicting keys at any depth x strict/lenient x expansion on/off",
  "Tests use about a dozen key pairs; merges depend on order, depth, quoting and value kinds of all siblings.",
  [T+"decode/path_expand.rs", T+"decode/parser.rs", T+"de/mod.rs"], [("expand_paths/deep_merge/should_expand_key", T+"decode/path_expand.rs"), ("quoted-key marker", T+"decode/parser.rs")],
  ["toon_rs::decode_from_str", "toon_rs::decode::path_expand::expand_paths"])

p("C14", "Results depend only on the input and the options that concern it",
  """The decoded result (value or rejection) of a document does not depend on the delimiter, key-folding or flatten-depth options, nor on whether it is read from a string or a reader or into a dynamic or a self-describing typed target; the same value encoded under
  different delimiters or indent widths decodes to equal values. The default options are strict, comma, an indent of 2, and neither folding nor expansion. No call, decoding or encoding, depends on calls made before it, failed ones included, or at the same time on other threads.""",
  ["inputs", "configurations", "histories"], "all documents (valid, corrupted and arbitrary text) x all pairs of encode-only options x entry points x all histories of calls",
  "Tests always decode with one fixed option set per document, once.",
  [T+"de/mod.rs", T+"lib.rs", T+"decode/parser.rs"], [("header-declared delimiter", T+"decode/parser.rs"), ("decode_from_str/decode_from_reader", T+"lib.rs")],
  ["toon_rs::decode_from_str", "toon_rs::decode_from_reader", "toon_rs::decode::parser::parse_to_value_with_strict"])

p("C15", "Syntax errors carry the right line number",
  """When a document with exactly one corrupted line is rejected, the syntax error's line number (1-based) names the corrupted line, or for a wrong element or row count the header that declares it, also where lenient decoding skips blank lines; every reported line number lies within the document, and the printed error shows it.""",
  ["inputs", "fault_sequences"], "every valid document x every single-line corruption (bad escape, unterminated string, bad indentation, row width, wrong count, blank line inside an array)",
  "Two tests look at a line number; the number is computed separately at some thirty error sites.",
  [T+"decode/parser.rs", T+"decode/validation.rs", T+"error.rs"], [("Error::Syntax construction", T+"decode/parser.rs"), ("ValidationError", T+"decode/validation.rs")],
  ["toon_rs::decode_from_str"])

p("C16", "Failed serialization is an error, never altered output",
  """When a value's Serialize implementation reports an error anywhere inside it, or the value cannot be represented (a compound map key, an integer outside the 64-bit range), every encode entry point returns an error; it never succeeds with the offending part
  replaced by null, dropped or changed.""",
  ["inputs", "fault_sequences"], "all typed values with one failing part placed at any position and depth x entry points x folding on/off",
  "No test serializes a failing value; each nesting kind has its own error path.",
  [T+"ser/stream.rs", T+"ser/value_builder.rs", T+"ser/mod.rs"], [("to_value", T+"ser/value_builder.rs"), ("try_scalar_to_string fallback", T+"ser/stream.rs")],
  ["toon_rs::encode_to_string", "toon_rs::ser::to_string"])

p("C17", "The command-line tool converts exactly as the library does",
  """For every input and flag combination the tool's standard output is the library's conversion of the input plus one newline, the same from a file as from standard input, in either direction, with --delimiter and --pretty honoured; JSON to TOON to JSON through the tool gives back the same JSON.
  On invalid input, or an unreadable file, it exits non-zero, writes an error to standard error and nothing to standard output.""",
  ["inputs", "configurations"], "all JSON and TOON inputs (valid, invalid, non-UTF-8) x flags x file/stdin",
  "CLI tests run a handful of fixed inputs.",
  ["crates/toon-cli/src/main.rs"], [("main", "crates/toon-cli/src/main.rs")], ["the toon-cli process"])

p("C18", "The WebAssembly bindings convert exactly as the library does",
  """For every input string and flag combination the binding functions return exactly the library's conversion (compact or pretty JSON, comma or pipe delimiter, strict or lenient) or an error string when the library or JSON parser rejects it, and never panic.
  Inputs larger than 10 MiB (in bytes) are refused and inputs of exactly that size are not refused for their size.""",
  ["inputs", "configurations"], "all strings x (pipe, strict, pretty) flags, sizes around the limit",
  "The wasm crate's tests run only a few fixed strings.",
  ["crates/toon-wasm/src/lib.rs"], [("json_to_toon/toon_to_json", "crates/toon-wasm/src/lib.rs")], ["toon_wasm::json_to_toon", "toon_wasm::toon_to_json"])

p("C19", "Readers and writers: chunking is invisible and I/O errors surface",
  """Decoding from a reader gives the same result as decoding the whole text, however the reader splits its bytes or interrupts; a read error at any point or invalid UTF-8 gives an I/O error. Encoding to a writer delivers exactly
  the bytes of the string encoding for any short-write pattern, and a write error at any point is returned as an I/O error.""",
  ["inputs", "fault_sequences"], "all documents/values x all chunkings x a fault (interrupt, error, zero write) at every byte position x all reader/writer entry points",
  "Tests use in-memory slices and vectors only; no fault is ever injected.",
  [T+"lib.rs", T+"ser/mod.rs", T+"error.rs"], [("decode_from_reader/encode_to_writer", T+"lib.rs"), ("to_writer/to_writer_streaming", T+"ser/mod.rs")],
  ["toon_rs::decode_from_reader", "toon_rs::encode_to_writer", "toon_rs::ser::to_writer", "toon_rs::ser::to_writer_streaming"])

p("C20", "The no-JSON (alloc) build encodes and decodes like the default build",
  """Built without std and without the JSON feature, the library encodes every typed or dynamic value to the same canonical text, decodes every document to the same value and rejects the same broken documents as the default build. (Key folding is not part of this build: with it on, the text is the unfolded one.)""",
  ["inputs", "configurations"], "all values and documents of C01, C02, C05, C06, C11 under the alloc+serde feature set",
  "The alloc feature set has its own value builder and its own copy of every encoder function, and only a handful of tests run under it.",
  [T+"ser/stream.rs", T+"ser/value_builder_alloc.rs", T+"value.rs", T+"de/mod.rs"], [("*_alloc helpers", T+"ser/stream.rs"), ("value_builder_alloc", T+"ser/value_builder_alloc.rs")],
  ["toon_rs::encode_to_string and decode_from_str built with --no-default-features --features alloc,serde"])

p("C21", "Optional performance features do not change any result",
  """With all optional features enabled (memchr scanning, small vectors, direct deserializer), encoding and decoding, of dynamic values and of typed ones, give the same results as the default build on every input. (One older table form, a hyphen before each row below a table header on a hyphen line, is read only by the direct deserializer.)""",
  ["inputs", "configurations"], "all values and documents of C01, C05, C06, C11 under all features",
  "The features swap in separate scanning, splitting and deserializing code that only a few tests reach.",
  [T+"de/direct.rs", T+"decode/scanner.rs", T+"decode/parser.rs"], [("DirectDeserializer", T+"de/direct.rs"), ("find_unquoted_colon (memchr)", T+"decode/scanner.rs"), ("split_delim_aware (memchr)", T+"decode/parser.rs")],
  ["toon_rs built with --all-features"])

p("C22", "The line scanner is faithful to the text",
  """Scanning any text yields one record per line with the line's exact leading-space count, and its kind and parts (blank, list item, key only, key and value, other) follow from the first colon outside quotes and the hyphen prefix, so that the parts are verbatim slices of the line
  with only the separator and surrounding blanks removed.""",
  ["inputs"], "all UTF-8 texts",
  "Scanner tests use a few literal lines.",
  [T+"decode/scanner.rs"], [("scan", T+"decode/scanner.rs"), ("find_unquoted_colon", T+"decode/scanner.rs")], ["toon_rs::decode::scanner::scan"])

p("C23", "The dynamic value model is faithful to the document",
  """The library's own dynamic value type, as returned by its public parser entry points, holds exactly the same data as the JSON value decoded from the same document, entries in document order; displaying one of its numbers gives the canonical number text, and its primitive test is true exactly for non-containers.""",
  ["inputs"], "all valid documents and all numbers",
  "The internal value API is only exercised indirectly.",
  [T+"value.rs", T+"decode/parser.rs"], [("Value/Number", T+"value.rs"), ("parse_to_internal_value*", T+"decode/parser.rs"), ("to_json_value", T+"decode/parser.rs")],
  ["toon_rs::decode::parser::{parse_to_value, parse_to_internal_value, parse_to_internal_value_from_lines, parse_to_value_with_strict}", "toon_rs::value"])

p("C24", "The public building blocks agree with the entry points",
  """What the library is built of is public, too, and does on its own what it does inside: the formatting functions (quoting, keys, headers, numbers) give the canonical text of their argument; the line writer's text is its lines joined by newlines; the encoders write a value or a field, at any
  indent and with key folding, as the entry point's text of that value, or of the object with that field, moved to the right; an array is reported as tabular exactly when the encoder writes it as a table, with its columns; normalizing a JSON value changes nothing; scanning, validating,
  parsing with options, expanding paths and deserializing from the parsed value, in a row, accept the same texts as decoding a string, with the same value or error line; and the indentation validators name the first line that breaks the rule.""",
  ["inputs"], "all strings, numbers, JSON values, texts, options and indents",
  "The tests of these functions use a few literals; most are reached only through the entry points, which do not use every parameter.",
  [T+"encode/primitives.rs", T+"encode/encoders.rs", T+"encode/writer.rs", T+"encode/normalize.rs", T+"decode/validation.rs", T+"decode/path_expand.rs", T+"de/mod.rs"],
  [("needs_quotes/format_*", T+"encode/primitives.rs"), ("encode_value/encode_object_field*/is_tabular_array", T+"encode/encoders.rs"), ("LineWriter", T+"encode/writer.rs"), ("validate_indentation*", T+"decode/validation.rs"), ("Deserializer::from_value", T+"de/mod.rs")],
  ["toon_rs::encode::{primitives, encoders, writer, normalize}", "toon_rs::decode::{scanner, validation, parser, path_expand}", "toon_rs::de::Deserializer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
ENC="eth_abi/encoding.py";DEC="eth_abi/decoding.py";REG="eth_abi/registry.py";COD="eth_abi/codec.py";GRA="eth_abi/grammar.py";BASE="eth_abi/base.py";NUM="eth_abi/utils/numeric.py"
p("C01","Standard encoding is exactly the Solidity ABI encoding",
 "For every list of supported ABI types and every list of encodable Python values, encode() returns exactly the bytes the Solidity contract ABI specification prescribes: static values in 32-byte words with the right sign/zero padding and alignment, dynamic values behind head offsets relative to their enclosing tuple or array, length prefixes counted in bytes or elements, and bytes/strings right-padded to a word boundary. This holds for every size of every type, every nesting of arrays and tuples, every arity and every length.",
 ["inputs","programs"],"all type lists (any nesting, arity, bit size) and all encodable values",
 "Tests compare a few dozen hand-written encodings; random tests compare the encoder with a copy of its own arithmetic, so offsets and padding for most nestings, sizes and lengths are never compared with the specification.",
 [ENC,"eth_abi/utils/padding.py",NUM,COD],[("head/tail assembly","eth_abi/encoding.py TupleEncoder.encode, BaseArrayEncoder.encode_elements"),("padding and two's complement","eth_abi/encoding.py FixedSizeEncoder.encode, SignedIntegerEncoder.encode")],["return value of eth_abi.encode"])
p("C02","Decoding inverts encoding",
 "For every list of supported types and encodable values, decode(types, encode(types, values)) returns a tuple equal to the original values (in canonical Python form: sequences become tuples, addresses lower-case 0x hex, fixed-length bytes padded to their length, fixed-point numbers exact Decimals), in strict and in non-strict mode, from bytes and from bytearray. Every value is recovered exactly: no precision, sign, length or ordering is lost.",
 ["inputs","programs"],"all type lists and all encodable values, both strict modes, both byte-buffer kinds",
 "The reversibility tests draw a few hundred random values from a handful of type shapes; corner lengths, deep nestings and boundary values of most of the 5,000+ basic types are not drawn.",
 [ENC,DEC,COD],[("decoders mirror encoders","eth_abi/decoding.py"),("frames for relative offsets","eth_abi/decoding.py ContextFramesBytesIO")],["return value of eth_abi.decode"])
p("C03","A decoded value is exactly what the payload denotes",
 "For every list of types and every byte payload, whenever decode() in its default (strict) mode returns, the returned tuple is exactly the value that the payload denotes under the ABI specification, and every payload that is well-formed for the types is accepted. A payload with a non-canonical word (non-zero padding of an integer, address, bool, bytesN, bytes or string, a wrong sign extension, a bool other than 0/1), a missing word, or an invalid pointer is never accepted.",
 ["inputs"],"all type lists and all payloads, well-formed or not",
 "Tests decode a fixed set of good encodings and about twenty malformed ones; they cannot cover the combinations of words, offsets and lengths an attacker may send.",
 [DEC,COD],[("padding validation","eth_abi/decoding.py FixedByteSizeDecoder.validate_padding_bytes, SignedIntegerDecoder, ByteStringDecoder"),("pointer validation","eth_abi/decoding.py TupleDecoder.validate_pointers, BaseArrayDecoder.validate_pointers")],["return value or exception of eth_abi.decode"])
p("C04","Malformed payloads fail only with decoding errors",
 "For every list of supported types and every byte payload, in strict and non-strict mode, decode() either returns a value or raises a DecodingError (or UnicodeDecodeError when a string is not valid UTF-8). No payload, however large the lengths, counts or offsets it claims, makes it raise any other exception, hang, or allocate in proportion to a claimed rather than an actual size.",
 ["inputs","fault_sequences"],"all payloads, including every corruption of a valid encoding by truncation or by replacing words with extreme values",
 "Only a few malformed payloads are in the tests and extreme claimed lengths, counts and offsets (beyond 2**63) are not among them.",
 [DEC],[("length checks before use","eth_abi/decoding.py FixedByteSizeDecoder.read_data_from_stream, ByteStringDecoder.read_data_from_stream"),("pointer checks before seek","eth_abi/decoding.py validate_pointers")],["exception type of eth_abi.decode","memory and step count of one call"])
p("C05","Decoder never follows a pointer into a head or past the end",
 "For every type with dynamic parts and every payload, decode() rejects with InvalidPointer or another DecodingError any head offset that points before the end of the head section of the tuple or array it belongs to, or at or beyond the end of the payload. Offsets that point at or after the end of that head and inside the payload are followed relative to the start of that tuple or array, whatever else the head contains.",
 ["inputs"],"all dynamic types (heads mixing pointers with static words, static arrays and static tuples, at any nesting) and all offset values",
 "The tests for pointer validation use seven payloads; the head length depends on every static member of the tuple, which they do not vary.",
 [DEC],[("head length and pointer range check","eth_abi/decoding.py TupleDecoder.validate_pointers, BaseArrayDecoder.validate_pointers")],["return value or exception of eth_abi.decode"])
p("C06","is_encodable tells exactly whether encode succeeds",
 "For every type string and every Python value, is_encodable(t, v) returns True if and only if encode([t], [v]) succeeds, never raises for a value, and whenever encode rejects a value for a supported type it raises EncodingError. The same holds for the packed pair is_encodable_packed / encode_packed.",
 ["inputs"],"all types and arbitrary Python values (wrong types, wrong lengths, extreme numbers, odd sequences, nested)",
 "Tests check a short table of values per type; agreement must hold for arbitrary Python objects inside arbitrary nestings.",
 [COD,ENC,"eth_abi/packed.py","eth_abi/utils/string.py"],[("validation before encoding","eth_abi/encoding.py validate_value methods"),("error reporting","eth_abi/encoding.py BaseEncoder.invalidate_value")],["is_encodable","encode","is_encodable_packed","encode_packed"])
p("C07","Each type accepts exactly its own set of values",
 "encode() accepts a value exactly when it belongs to the type: integers within the bit-width range, Decimals or ints within range and with no digits beyond the fractional places, bytesN of at most N bytes, sequences of exactly the declared length, tuples of exactly the declared arity, 20-byte addresses as bytes or hex text, real booleans, bytes-like and text values. A value outside the set is rejected with EncodingError and never clipped, rounded, wrapped, padded out or otherwise silently changed.",
 ["inputs","programs"],"every integer, fixed-point and bytesN type, every array size, values at and around every limit",
 "Limits exist for 64 integer, 5,120 fixed-point and 32 bytes types in two encoders each; tests sample random points that rarely fall on a limit.",
 [ENC,NUM],[("bounds","eth_abi/utils/numeric.py compute_*_bounds"),("type and range checks","eth_abi/encoding.py NumberEncoder.validate_value, BaseFixedEncoder.validate_value, BytesEncoder, SizedArrayEncoder")],["encode","is_encodable"])
p("C08","Truncated encodings are rejected, trailing bytes ignored",
 "For every supported type list and values, every proper prefix of encode(types, values) is rejected by decode() with a DecodingError, at whatever byte it is cut. Appending any bytes after the encoding does not change the decoded value.",
 ["inputs","fault_sequences"],"all values and every cut point; all trailing bytes",
 "Tests cut a few payloads at one place each; every byte of every encoding is a possible cut.",
 [DEC],[("short read detection","eth_abi/decoding.py read_data_from_stream methods")],["return value or exception of eth_abi.decode"])
p("C09","Strict flag relaxes only padding and only for its own call",
 "decode(..., strict=False) returns the same value as strict mode for every payload strict mode accepts, and beyond that accepts exactly the payloads whose only fault is absent or non-zero padding after a bytes or string value, returning exactly the declared number of bytes; everything else strict mode rejects stays rejected. The flag affects only the call it is passed to: no later or earlier decode on the same or another codec, for built-in or custom registered decoders, behaves differently because of it.",
 ["inputs","histories"],"all payloads; all sequences of strict and non-strict decodes over shared registries, including decoder instances registered by the user",
 "One test calls non-strict then strict once for a built-in type; histories over nested types, copies and registered decoder instances are not explored.",
 [DEC,REG,COD],[("per-flag decoder lookup","eth_abi/registry.py get_decoder cache and strict flag"),("non-strict reads","eth_abi/decoding.py ByteStringDecoder.read_data_from_stream")],["decode with strict True/False"],
 state=[dict(name="cached decoders",meaning="decoder per type string and strict flag",where="eth_abi/registry.py")])
p("C10","Packed encoding is the concatenation of minimal-width values",
 "For every supported type list and encodable values, encode_packed() returns the concatenation, in order, of each value in its minimal width: integers and fixed-point numbers in exactly their bit size as big-endian two's complement, bool in one byte, address in 20, bytesN in N bytes right-padded, bytes and UTF-8 strings raw, and arrays and tuples as the concatenation of their packed members with no length prefix, offset or padding.",
 ["inputs","programs"],"all type lists and all encodable values",
 "Packed tests use one table of examples; widths of most integer, fixed and bytes types and nested arrays/tuples are not in it.",
 [ENC,REG,"eth_abi/packed.py"],[("packed encoders","eth_abi/encoding.py Packed* classes"),("packed registry","eth_abi/registry.py registry_packed")],["return value of encode_packed"])
p("C11","Type strings are parsed exactly and rendered back unchanged",
 "The type-string parser accepts exactly the strings of the documented grammar (basic types with optional size, array dimension lists, non-empty tuples, nested) and rejects every other string with ParseError or ValueError. For every accepted string the result describes it faithfully - base, size, components, array dimensions, item type, is_array and is_dynamic - and rendering it back gives the original string.",
 ["inputs","programs"],"all strings over the type-string alphabet",
 "Tests parse lists of examples and strings drawn from generators of valid types; they cannot show that all malformed strings are rejected or all valid ones described correctly.",
 [GRA],[("PEG grammar and visitor","eth_abi/grammar.py grammar, NodeVisitor"),("type objects","eth_abi/grammar.py ABIType, TupleType, BasicType")],["eth_abi.grammar.parse and attributes of its result"])
p("C12","The supported types are exactly the ABI types and their aliases",
 "is_encodable_type() is True, and encode()/decode() work, for exactly the types of the Solidity ABI: uintM/intM with M in 8..256 step 8, bytesM with M in 1..32, (u)fixedMxN with M in 8..256 step 8 and N in 1..80, bool, address, bytes, string, the aliases int, uint, fixed, ufixed, function and byte, and arrays and tuples of these. Each alias behaves identically to its canonical type at top level and at every position inside arrays and tuples, in standard and packed encoding, decoding and value strategies; every other type string is refused by encode and decode with an error.",
 ["programs","inputs"],"all type strings naming a base, size and dimensions",
 "Tests try a handful of invalid sizes and two alias strings; there are thousands of sizes and several code paths that resolve a type string.",
 [GRA,REG,BASE,"eth_abi/tools/_strategies.py"],[("size validation","eth_abi/grammar.py BasicType.validate"),("alias normalisation","eth_abi/grammar.py normalize"),("default registrations","eth_abi/registry.py")],["is_encodable_type, encode, decode, encode_packed, normalize, get_abi_strategy"])
p("C13","Registry lookups always reflect the current registrations",
 "After any sequence of register, unregister and lookup operations, a lookup returns the coder of the one registration that matches the type string, raises NoEntriesFound (or a parse error) when none matches and MultipleEntriesFound when several do; this includes compound types whose members were registered, replaced or removed after an earlier lookup. A duplicate lookup or label is refused without changing the set of encoders or decoders it was refused by, and an entry can be removed by its label or by an equal lookup, after which both its label and its lookup can be used again.",
 ["histories"],"all sequences of registry operations and lookups",
 "Tests perform one or two operations from a fresh registry; staleness and label bookkeeping errors need specific longer sequences.",
 [REG],[("lookup cache cleared on change","eth_abi/registry.py _clear_encoder_cache, _clear_decoder_cache"),("predicate and label maps","eth_abi/registry.py PredicateMapping")],["ABIRegistry.register*/unregister*/get_encoder/get_decoder/has_encoder and codec calls"],
 state=[dict(name="registrations",meaning="lookup -> coder, label -> lookup, for encoders and decoders",where="eth_abi/registry.py"),dict(name="lookup caches",meaning="type string -> coder",where="eth_abi/registry.py")])
p("C14","Registry copies are independent",
 "A registry copied with copy(), copy.copy or copy.deepcopy starts with the same registrations and labels, and afterwards no operation on one - registering, unregistering, looking up or coding - changes what the other encodes, decodes or finds, including compound types and types looked up before the copy was made.",
 ["histories"],"all interleavings of operations on an original and its copies (and copies of copies)",
 "Tests only check that copies have distinct internal maps; leakage shows up only in particular sequences of lookups and changes across both objects.",
 [REG],[("copy of both mappings with fresh caches","eth_abi/registry.py ABIRegistry.copy, PredicateMapping.copy")],["lookups and codec results on both registries"])
p("C15","Coding work is bounded by the type and the actual data",
 "For every supported type and payload, the work decode() does is at most proportional to the words of actual payload the value occupies plus the size of the type, and in particular does not double with each level of nesting; encode() is at most quadratic in nesting depth and linear in data. A claimed element count or length beyond the payload costs no more than reading the payload to its end.",
 ["inputs","programs"],"all nestings of tuples and arrays, all claimed counts and lengths",
 "Tests use nesting depths of two or three and have one time-limited case; growth with depth is not measured.",
 [DEC,ENC],[("pointer validation pass","eth_abi/decoding.py TupleDecoder.validate_pointers"),("short read stops a long claimed array","eth_abi/decoding.py DynamicArrayDecoder.decode")],["number of stream reads and of function calls during one encode/decode"])
p("C16","Results do not depend on the caller's decimal context",
 "Whatever decimal context is active in the calling thread (precision, rounding, exponent limits, clamping, traps), encode, decode, is_encodable and the packed forms give the same results and the same acceptance for fixed-point values as under the default context. The caller's context settings are the same after the call as before, also when the call fails.",
 ["configurations","inputs"],"all decimal contexts, all fixed-point types and values",
 "All tests run under the default context of 28 digits, where many fixed-point values happen to fit.",
 [ENC,DEC,NUM],[("private 999-digit context","eth_abi/utils/numeric.py abi_decimal_context, decimal.localcontext")],["encode/decode results and decimal.getcontext()"])
p("C17","Registered custom coders compose with every compound type",
 "A coder the user registers - a plain callable, a coder class, or a coder instance, static or dynamic - encodes and decodes its type in the same way at top level and at any position inside tuples, fixed-size arrays, dynamic arrays and nestings of them, next to built-in types, and is honoured by is_encodable. Other types are unaffected by the registration.",
 ["programs","configurations"],"all kinds of custom coders at all positions in compound types",
 "Tests and docs use custom coders at top level and once inside a tuple.",
 [ENC,DEC,REG],[("fallback for callables","eth_abi/encoding.py TupleEncoder.validate_value"),("dynamic detection","eth_abi/decoding.py TupleDecoder, BaseArrayDecoder")],["codec results over a registry with custom coders"])
p("C18","Calls are pure functions of their arguments",
 "Every encode, decode, is_encodable, packed and parse call gives a result that depends only on its arguments and the current registrations, never on which calls, successful or failing, were made before. No call modifies its arguments, and no returned value shares mutable state with the arguments, with a later result or with the library.",
 ["histories"],"all sequences of calls, including failing ones, on shared codecs",
 "Each test makes one call on a warm or cold process; order effects through caches or leftover state need chosen sequences.",
 [COD,REG,GRA,DEC,ENC],[("stateless coders, per-call stream","eth_abi/codec.py"),("memoised parse and lookup","eth_abi/grammar.py, eth_abi/registry.py")],["results of calls in every order; arguments after the call"],
 state=[dict(name="parse cache, coder caches",meaning="memo tables shared by all calls",where="eth_abi/grammar.py, eth_abi/registry.py")])
p("C19","Concurrent calls give the same results as separate calls",
 "When several threads call encode, decode, is_encodable or the packed forms at the same time on a shared codec - including first use of a type, strict and non-strict decodes of the same type, failing calls, and use of a registry while a copy of it is changed - every call returns or raises exactly what it would alone, under every thread interleaving.",
 ["schedules"],"all interleavings of concurrent calls on shared codecs and registries",
 "No test uses threads; a race needs a switch at one particular point.",
 [COD,REG,DEC,ENC,GRA],[("coders hold no per-call state","eth_abi/encoding.py, eth_abi/decoding.py"),("per-call stream and local decimal context","eth_abi/codec.py, eth_abi/utils/numeric.py")],["result of every call in every schedule"])
p("C20","Value strategies generate exactly encodable values",
 "For every supported ABI type, get_abi_strategy() returns a strategy all of whose values are encodable as that type and survive an encode/decode round trip, and which can produce the smallest and largest values of the type (numeric limits, empty and non-empty dynamic values, exact fixed lengths).",
 ["programs","inputs"],"all types and every sequence of draws the strategy can make",
 "Tests compare the printed form of two dozen strategies and never encode what they generate.",
 ["eth_abi/tools/_strategies.py",NUM],[("strategy factories","eth_abi/tools/_strategies.py get_*_strategy"),("exact scaling","eth_abi/utils/numeric.py scale_places")],["values drawn from get_abi_strategy(type)"])
p("C21","Decoding stream frames nest and restore the cursor",
 "For every sequence of reads, seeks, frame pushes and frame pops on a decoding stream, positions inside a frame are relative to the sum of the offsets of the open frames, popping a frame restores the cursor and frame base that were current when it was pushed, and popping with no open frame raises IndexError and changes nothing. A decoder configured with a custom stream class uses that class for all access and gives the same results when the class only extends the default one.",
 ["histories","configurations"],"all operation sequences on a stream; all types decoded through a custom stream class",
 "The test runs one fixed sequence of operations; custom stream classes are not tested.",
 [DEC,COD],[("frame stack and running total","eth_abi/decoding.py ContextFramesBytesIO"),("stream_class hook","eth_abi/codec.py ABIDecoder.stream_class")],["tell/read results; decode through a codec with a custom stream class"],
 state=[dict(name="frame stack",meaning="(offset, return position) per open frame",where="eth_abi/decoding.py")])
p("C22","Coder classes accept only their own types and consistent settings",
 "Each built-in encoder and decoder class builds a coder, through from_type_str, for the supported types of its own base (or arrays, or tuples; sized and unsized bytes are told apart by the registry only) and refuses type strings of other bases, arrays where it has none, and strings that are no supported type with ValueError or ParseError. Constructed directly, a fixed-size coder refuses a bit size that is no multiple of eight or exceeds the data size, fractional places outside 1..80, missing settings and unknown settings, and with every other combination it encodes and decodes exactly the values of that bit size in exactly that many bytes. A coder used on its own on a stream, at any position and inside frames, gives the encoding or value the type has inside encode() and decode(), refuses with EncodingError the values that encode() refuses, and reads exactly its own bytes.",
 ["configurations","inputs"],"all coder classes, all type strings, all combinations of sizes, all stream positions",
 "Tests check two dozen combinations of settings and types by table; the sizes and classes multiply.",
 [ENC,DEC,"eth_abi/base.py"],[("validation of settings","eth_abi/encoding.py, eth_abi/decoding.py validate"),("type string checks","eth_abi/base.py parse_type_str, parse_tuple_type_str")],["from_type_str and constructors of the coder classes; their call results"])
p("C23","Every entry point checks its arguments and agrees with the others",
 "encode, decode and the packed forms take types and args only as list or tuple and data only as bytes or bytearray, positionally or by keyword, and refuse anything else with TypeError; a different number of types and values is refused with EncodingError. The module functions, default codecs, and any ABIEncoder, ABIDecoder or ABICodec over the same or a copied registry give the same results and exception classes for the same call, as does the coder of the corresponding tuple type.",
 ["inputs","configurations"],"all kinds of argument objects, all arities, all types and values through all entry points",
 "Tests use one or two wrong containers per function and only ever one entry point for a given input.",
 [COD,"eth_abi/abi.py","eth_abi/packed.py","eth_abi/utils/validation.py"],[("argument validation","eth_abi/utils/validation.py"),("arity check","eth_abi/encoding.py TupleEncoder.validate_value"),("bound methods of default codecs","eth_abi/abi.py, eth_abi/packed.py")],["results and exception classes through each entry point"])
p("C24","String decoders apply exactly their own error handler",
 "A StringDecoder built with handle_string_errors=h decodes every byte string, at top level and inside arrays and tuples, to exactly what bytes.decode('utf-8', h) gives, raising UnicodeDecodeError exactly when that does, for every standard or user-registered handler. The built-in string type always uses the strict handler, and decoders with different handlers in one or several registries do not influence each other.",
 ["inputs","configurations"],"all byte strings, all error handlers, all ways of registering",
 "Tests decode one invalid string with a few handlers at top level.",
 [DEC,REG],[("handler kept per decoder","eth_abi/decoding.py StringDecoder")],["decoded text or UnicodeDecodeError"])
p("C25","Registry lookups match exactly the types they describe",
 "For every string, BaseEquals(base, with_sub) is True exactly when the string is a basic type of that base without array dimensions and with, without or regardless of a size as asked; has_arrlist exactly for types with array dimensions, is_base_tuple exactly for tuples without, Equals exactly for the equal string; none of them raises for any string. Two lookups are equal and hash alike exactly when they are of the same kind and describe the same types. Each supported type is handled by exactly the built-in registrations whose labels describe it and its members.",
 ["inputs","programs"],"all strings, all pairs of lookups, all supported types",
 "Tests check a handful of strings against each predicate.",
 [REG,GRA],[("predicates","eth_abi/registry.py Equals, BaseEquals, has_arrlist, is_base_tuple"),("built-in registrations","eth_abi/registry.py")],["predicate results; has_encoder after unregistering one label"])
p("C26","Every refusal is of the documented class for what is wrong",
 "Encoding refuses a Python value of an unsupported kind with EncodingTypeError, a number, length or item count outside the type with ValueOutOfBounds and any other illegal value (NaN, infinity, too many fractional digits, text that has no UTF-8 form) with an IllegalValue that is no ValueOutOfBounds; decoding refuses missing bytes with InsufficientDataBytes, malformed padding or booleans with NonEmptyPaddingBytes, pointers into the head or past the end with InvalidPointer and malformed text with UnicodeDecodeError; type strings that do not parse are refused with ParseError (an empty tuple or an overlong number with ValueError), unsupported sizes of known types with ABITypeError, unknown types with NoEntriesFound and ambiguous registrations with MultipleEntriesFound. When several faults are present the class is that of one of them. The classes keep their documented base classes, and every such error can be printed.",
 ["inputs","configurations"],"all values, payloads and type strings with one or several faults, all entry points",
 "Tests check the class for a few faulty inputs, one fault each, mostly at top level.",
 [ENC,DEC,GRA,REG,"eth_abi/exceptions.py"],[("class tree","eth_abi/exceptions.py"),("raise sites","eth_abi/encoding.py invalidate_value, eth_abi/decoding.py, eth_abi/grammar.py invalidate, eth_abi/registry.py find")],["class of the exception raised"])
p("C27","Parsed types report their validity, equality and canonical form",
 "For every type string of the grammar, parse(s).validate() raises ABITypeError, naming an offending member and its column, exactly when the string or a member at any depth has a known base (int, uint, fixed, ufixed, bytes, string, address, bool, hash) with a size that base does not have, and otherwise returns; members and item types judge themselves in the same way. Two parsed types are equal exactly when their strings are, and equal to the same type built by hand. normalize() replaces every alias that stands as a whole basic type by its canonical type, changes nothing else and leaves canonical strings alone.",
 ["inputs"],"all type strings of the grammar, all sizes, all positions of a faulty member",
 "Tests validate a handful of strings and normalise a handful.",
 [GRA],[("validation","eth_abi/grammar.py BasicType.validate, TupleType.validate, ABIType.invalidate"),("equality","eth_abi/grammar.py ABIType.__eq__"),("aliases","eth_abi/grammar.py normalize")],["result or exception of validate(); ==; normalize(s)"])
p("C28","Interrupted and failed calls leave nothing behind",
 "When a call of encode, decode, is_encodable, is_encodable_type, their packed variants, parse or normalize is cut short at any point, by KeyboardInterrupt, MemoryError or another exception from outside, or by an exception out of the user's own coders, stream class or values, KeyboardInterrupt reaches the caller and the arguments are unchanged. Every later call, of the same or other functions, on the same codec, another codec of the same registry or a copy, gives exactly the result it would give in a fresh process, however many calls failed or were cut before. A registry copy() that is cut short leaves the original registry, its caches and later copies unaffected.",
 ["fault_sequences","crash_points","histories"],"every point at which a call can be interrupted, every use of user code that can fail, every number of failed calls",
 "Tests never interrupt a call; they check single failing calls in fresh coders.",
 [COD,ENC,DEC,REG,GRA],[("cached coders","eth_abi/registry.py get_encoder, get_decoder, copy"),("cached parses","eth_abi/grammar.py parse"),("frames of a stream","eth_abi/decoding.py HeadTailDecoder.decode"),("calls","eth_abi/codec.py")],["result or exception of every call after the interruption"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    assert len(x['title'])<=80
    assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
print(len(P))

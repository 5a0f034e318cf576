"""One entry per claimed property: the text that goes to properties.jsonl, and how its check runs.
`python3 vlib/gen.py` writes properties.jsonl and MANIFEST.json from it."""
PROPS = {}
NOT_APPLICABLE = []


def P(id, feature, title, statement, over, qtext, why, files, mech, bounds, outside="", assumptions=(), **kw):
    PROPS[id] = dict(feature=feature, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                     mech=mech, bounds=bounds, outside=outside, assumptions=list(assumptions), **kw)


P("A01", "p_total", "Decoders never panic, overflow or hang, whatever the input",
  "Decoding any byte string as any supported type, through any of the BER and DER entry points, returns a value or an error. It never panics, overflows an integer, reads out of bounds, or fails to terminate.",
  ["inputs"], "every byte string, every decodable type, the four decoding entry points (BER and DER, over slices and over positioned inputs)",
  "tests decode a few hundred fixed strings; a panic hides behind one unusual length octet, nesting or content byte",
  ["src/header.rs", "src/ber/parser.rs", "src/from_ber.rs", "src/from_der.rs", "src/asn1_types"],
  [("decoders", "src/asn1_types/*"), ("header decoding", "src/header.rs"), ("content extraction", "src/ber/parser.rs")],
  "every byte string of up to 8 octets (12 for 64-bit integers), for each of 24 types and each of 4 entry points",
  "longer inputs; REAL (see E05), dates (see E04), derived types (see F04, F05)")
P("A02", "p_extent", "A decoder consumes exactly the first encoded object",
  "When a decoder succeeds, what it consumed is exactly the first complete object of the input as X.690 delimits it (definite lengths, and indefinite lengths closed by end-of-contents octets at their own nesting level), and the remaining input starts right after it, with the right position. The octets that follow the object have no influence on the result, and an input cut anywhere inside its first object is never accepted.",
  ["inputs"], "every byte string, whole, cut at every place or followed by anything, for every decodable type, in BER and DER",
  "tests append at most one fixed suffix to a few objects and never compare the extent with an independent definition; nested indefinite lengths and long-form lengths are barely sampled",
  ["src/ber/parser.rs", "src/header.rs", "src/from_ber.rs", "src/from_der.rs", "src/input.rs"],
  [("content extraction", "src/ber/parser.rs"), ("input splitting and spans", "src/input.rs"), ("decoding entry points", "src/from_ber.rs, src/from_der.rs")],
  "every byte string of up to 7 to 9 octets per type; definite lengths 126..255 (over 140 octets) and 0..511 (over 400 octets) for OCTET STRING and SEQUENCE",
  "longer inputs; more than 3 levels of nested indefinite lengths; class of the identifier")
P("A03", "p_hdr", "Identifier and length octets are read as X.690 defines them",
  "A header is accepted exactly when its identifier octets give a tag number that fits 32 bits in at most five subsequent octets, its length octets give a length that fits 64 bits (not the reserved value, and indefinite only if constructed), and all of them are present. Class, constructed bit, tag number, length, the raw octets, the remaining input and its position are then exactly those encoded; DER decoding also rejects the indefinite length.",
  ["inputs"], "every byte string, decoded as a header by the BER and DER entry points",
  "tests read a handful of headers; the interplay of long tags, long lengths, leading zeros, truncation and overflow is a product space",
  ["src/header.rs", "src/class.rs", "src/tag.rs", "src/length.rs"],
  [("header decoding", "src/header.rs")],
  "every byte string of up to 12 octets (BER) and 10 (DER); every long-form length of 8, 9, 12 and 20 octets, whole or cut; every (identifier octet, first length octet) pair over 132 octets",
  "DER decoders accept headers that are not in shortest form (known finding under C01); DER leaves these to be rejected as well")
P("A04", "p_hdrenc", "Headers are written in shortest form and read back the same",
  "For every class, constructed bit, 32-bit tag number and length (any 64-bit value or indefinite), the header octets written are the shortest form X.690 allows, reading them gives back the same header, and the predicted sizes of identifier, length, header and whole object are exactly the sizes written.",
  ["inputs"], "every (class, constructed bit, tag number, length)",
  "tests write four or five headers; the boundaries lie at every power of 128 of the tag and of 256 of the length",
  ["src/to_ber/encoder.rs", "src/to_ber.rs", "src/to_der.rs", "src/to_ber/constructed.rs", "src/to_ber/primitive.rs"],
  [("tag and length writers", "src/to_ber/encoder.rs"), ("length helpers", "src/to_ber.rs")],
  "all values: 4 classes x 2 x 2^32 tags x (2^64 lengths + indefinite); total sizes up to 2^64 - 32",
  "none for 64-bit targets")
P("B01", "p_intdec", "Decoded integers are exactly the encoded numbers",
  "Decoding an INTEGER or ENUMERATED into a native integer gives the encoded number exactly, whatever the width and sign, and fails if the number does not fit or the content is empty; a shortest encoding of a number in range is always accepted. DER decoding of an INTEGER accepts nothing but shortest encodings, and arbitrary-size integers keep their content octets and convert to native and big integers with the same guarantees.",
  ["inputs"], "every content octet string, for every native integer type, the arbitrary-size type, and every conversion between them",
  "tests use about ten numbers per width, none of them systematic around widths, signs and redundant leading octets",
  ["src/asn1_types/integer.rs", "src/asn1_types/enumerated.rs"],
  [("fixed-width decoding", "src/asn1_types/integer.rs"), ("DER constraint", "src/asn1_types/integer.rs"), ("conversions", "src/asn1_types/integer.rs")],
  "content of 0 to width+3 octets (5 for 8 and 16 bits, 19 for 128 bits); 12 octets for the arbitrary-size type, 6 for its conversion to big integers",
  "longer contents; ENUMERATED in DER accepts longer encodings (known finding under C01); BER may reject a redundantly encoded negative number as too large (an existing test relies on it)")
P("B02", "p_intenc", "Integers are written in shortest form and read back the same",
  "Every native integer (any width up to 128 bits, signed or unsigned), enumerated value and boolean is written as the shortest encoding X.690 allows, with the size predicted, directly or through the arbitrary-size integer type, and reads back as the same value.",
  ["inputs"], "every value of every native integer type, of enumerated and of boolean",
  "tests encode some ten values per type out of up to 2^128",
  ["src/asn1_types/integer.rs", "src/asn1_types/enumerated.rs", "src/asn1_types/boolean.rs"],
  [("integer encoding", "src/asn1_types/integer.rs")],
  "all values of the 12 native integer types, all 2^32 enumerated values; 9-octet constant arrays",
  "constant arrays of other sizes")
P("E01", "p_oid", "Object identifiers: arcs to octets, octets to arcs, text",
  "An object identifier built from arcs has exactly the octets X.690 defines, arcs that cannot be represented are refused rather than altered, and an identifier read from any octets keeps them and gives back exactly the arcs they encode, or no 64-bit arcs at all when one does not fit. Iterators report the exact number of arcs left, relative identifiers obey the same rules under their own tag, prefix tests and equality agree with the octets, and the dotted text form matches the arcs both ways.",
  ["inputs"], "every sequence of arcs and every content octet string",
  "tests use about a dozen identifiers with small arcs; group boundaries lie at every power of 128, and leading arcs and overflow have special rules",
  ["src/asn1_types/oid.rs"],
  [("construction from arcs", "src/asn1_types/oid.rs"), ("arc iterators", "src/asn1_types/oid.rs"), ("text forms", "src/asn1_types/oid.rs")],
  "one further arc of any 64-bit value, up to three of any 16-bit value, relative identifiers of up to three 32-bit arcs; contents of up to 5 octets, arcs of 8 to 11 octets; dotted text with arcs below 100 (1300 when printing)",
  "more arcs; DER decoding of contents with redundant or unfinished arcs (accepted); second arcs of 48 and more under 2 are a known finding, so is 0.0")
P("E02", "p_bits", "BIT STRING bits survive decoding, encoding and conversion",
  "A decoded BIT STRING has exactly the bits encoded: content octets minus the declared unused bits, with an unused count above 7, or above zero without octets, rejected; DER also rejects padding bits that are set. A value built from octets or from a bit slice at any offset is written with the right unused count and zero padding, and reads back as the same bits; equality follows the bits.",
  ["inputs"], "every content octet string and every bit sequence",
  "tests use a few strings; the unused count, slice offset, padding and constructed segments multiply",
  ["src/asn1_types/bitstring.rs"],
  [("decoding", "src/asn1_types/bitstring.rs"), ("encoding", "src/asn1_types/bitstring.rs")],
  "contents of up to 5 octets, primitive and in segments; values of up to 3 octets with any unused count; bit slices of 3 octets at any offset and length",
  "longer strings; non-final segments that declare unused bits are accepted")
P("E03", "p_strings", "Character strings accept their repertoire and keep their characters",
  "Decoding or validating each restricted string type succeeds exactly on contents of its character repertoire (valid UTF-8, ASCII subsets, UTF-16 without lone surrogates, UCS-4 scalar values) and gives exactly the characters encoded. Encoding a string writes the same characters back with the predicted length, and characters outside the repertoire are refused, never replaced.",
  ["inputs"], "every content octet string for each of 13 string types, and every Unicode text for the wide ones",
  "tests decode one or two valid strings per type and almost no invalid ones; multi-octet encodings have many ill-formed shapes",
  ["src/asn1_types/strings"],
  [("repertoire tests", "src/asn1_types/strings/*.rs"), ("wide encodings", "src/asn1_types/strings/bmpstring.rs, src/asn1_types/strings/universalstring.rs")],
  "contents of 0 to 5 octets per type (4 for PrintableString, 6 for UTF-8, 7 for BMPString, 9 for UniversalString)",
  "longer strings; the library's own repertoires are taken for GeneralString, GraphicString, TeletexString, VideotexString and ObjectDescriptor, which X.690 leaves open to escape sequences")

P("C01", "p_der", "DER decoding accepts canonical encodings only, and agrees with BER",
  "A DER decoder accepts an object only if its contents are the one encoding DER allows for the value (booleans 00 or FF, shortest integers, zero padding bits, primitive strings, constructed sequences and sets whose elements are canonical too), so that encoding the decoded value again gives the same contents, and it accepts every such canonical encoding. Whatever a DER decoder accepts, the BER decoder of the same type accepts too, with the same value and the same remaining input.",
  ["inputs"], "every byte string, for each universal type and each DER entry point",
  "tests give each DER decoder one or two non-canonical strings; the non-canonical forms are a product of header, content and nesting variants",
  ["src/from_der.rs", "src/asn1_types", "src/traits.rs"],
  [("DER constraints", "src/asn1_types/*"), ("entry points", "src/from_der.rs")],
  "every byte string of up to 6 to 12 octets, for 23 types and both DER entry points",
  "longer inputs; lengths and tags that are not in shortest form and redundant octets of ENUMERATED and OBJECT IDENTIFIER are known findings; REAL (E05), times (E04), derived types (F04)")
P("E04", "p_time", "Times: fields, zone, instant and text survive decoding and encoding",
  "Decoding UTCTime or GeneralizedTime gives exactly the components and time differential written, and rejects malformed text, impossible components and, for GeneralizedTime in DER, anything without seconds and Z. Encoding a time writes the same instant in UTC in the DER form with the predicted length, or fails if it has no such form; conversions to dates, timestamps (with the century of UTCTime) and text denote the same instant, and order follows the calendar.",
  ["inputs"], "every content octet string, and every date, time, fraction and time differential",
  "tests use about ten valid times and a few malformed ones; month ends, leap years, century and negative differentials interact",
  ["src/datetime.rs", "src/asn1_types/utctime.rs", "src/asn1_types/generalizedtime.rs"],
  [("UTCTime", "src/asn1_types/utctime.rs"), ("GeneralizedTime", "src/asn1_types/generalizedtime.rs"), ("dates", "src/datetime.rs")],
  "every content of 0 to 18 (UTCTime) and 0 to 24 (GeneralizedTime) octets, every valid date and time in UTC; with differentials, every time and differential at 12 kinds of dates, and every date at 5 kinds of times (timestamps: 8 years, 100 in thorough); all out-of-range components when writing",
  "fractions of more than three digits, minutes absent, and local times without seconds are refused by the library; UTCTime DER accepting differentials and missing seconds, and trailing zeros in fractions, are known findings", defaults={"query_ms": 60000})

P("F01", "p_tagged", "Explicit and implicit tags are checked, stripped and written exactly",
  "Decoding a tagged value succeeds exactly if the object carries the declared class and tag number and the right form, and what it encloses (explicit) or its contents (implicit) decodes as the inner type; the value is then the one of the inner type decoded alone, and DER constraints of the inner type still apply. Encoding a tagged value writes the declared tag around or in place of the one of the inner type, with the predicted lengths; every decoding and writing interface agrees on this.",
  ["inputs"], "every byte string and every value, for explicit and implicit tags of several classes and tag numbers (short and long form), static and dynamic tags, parsers, builders and helper functions",
  "tests use one tag number and class each way; a skipped class check or constraint shows only on inputs that are tagged almost right",
  ["src/asn1_types/tagged", "src/asn1_types/tagged.rs", "src/traits.rs"],
  [("tagged types", "src/asn1_types/tagged/*.rs"), ("parsers and builder", "src/asn1_types/tagged/parser.rs, src/asn1_types/tagged/builder.rs"), ("implicit decoding", "src/traits.rs")],
  "inputs of up to 6 to 8 octets; four inner types (INTEGER, BOOLEAN, SEQUENCE, OCTET STRING), tag numbers 0, 1, 2, 30, 31, 40, 127, 128 and, for the builder, every number below 256; contents of up to 300 octets when writing",
  "other inner types; longer inputs; octets after the object inside an explicit tag, and an implicit tag over a type tagged differently, are known findings")
P("F06", "p_option", "OPTIONAL: absent means nothing consumed, nothing written",
  "Decoding an optional object gives absent, consuming nothing, exactly if the input is empty or its first object has another tag number; otherwise it gives exactly what decoding the type itself gives, error included. Writing an absent object writes no octet, also under tags and inside lists, and writing a present object, by value or by reference, writes exactly the object, always with the predicted length.",
  ["inputs"], "every byte string, each of 14 optional types and 6 decoding interfaces; every value, present or absent, and each writing interface",
  "tests cover two optional types with tags that match or differ by one bit of everything; malformed headers, indefinite forms and nested absences are not tried",
  ["src/asn1_types/optional.rs", "src/asn1_types/tagged/optional.rs", "src/to_der.rs", "src/to_ber.rs"],
  [("optional decoding", "src/asn1_types/optional.rs, src/asn1_types/tagged/optional.rs"), ("references", "src/to_ber.rs, src/to_der.rs")],
  "inputs of up to 6 to 8 octets (class fixed to universal for the string, list and OID types); one-octet values and contents of up to 3 octets when writing",
  "longer inputs; an object with the right tag number and another class is an error, not absent, as the library documents for tagged parsers")

P("F02", "p_list", "SEQUENCE OF and SET OF hold exactly the encoded elements, in order",
  "Decoding a list succeeds exactly if the object is constructed, has the list's tag, and its contents are a whole number of objects that each decode as the element type; the result holds those elements, in that order (without repetition for set collections, and exactly N for arrays), for every collection type, and iterators over the contents give the same elements one by one and stop at the first object they cannot delimit. Encoding a list writes the elements' encodings one after the other under one constructed header, and predicts that length.",
  ["inputs"], "every byte string and every list, through vectors, slices, arrays, sets, tuples, owned and borrowed list types, generic sequence types and iterators, in BER and DER",
  "tests use one or two valid lists per type; errors in the middle, trailing garbage, wrong element tags and empty lists differ by collection and interface",
  ["src/asn1_types/sequence", "src/asn1_types/set", "src/asn1_types/iterator.rs", "src/asn1_types/any.rs"],
  [("list types", "src/asn1_types/sequence/*.rs, src/asn1_types/set/*.rs"), ("iterators", "src/asn1_types/iterator.rs, src/asn1_types/sequence/iterator.rs")],
  "inputs of up to 7 to 9 octets whose outer header is the list's or differs in one respect; INTEGER, BOOLEAN, NULL, OCTET STRING, tagged and nested list elements; lists of up to 3 elements, and up to 300 octets of contents, when writing",
  "longer lists; SET OF order in DER, and octets after the last element of a tuple, are known findings")
P("F03", "p_seg", "Constructed strings are the concatenation of their segments",
  "Decoding a string in constructed form, of definite or indefinite length, gives exactly the concatenation of the contents of its segments, checked as a whole by the string type, and fails if a segment is not an object of the required universal type, if end-of-contents octets are missing, or if the nesting exceeds the fixed limit. DER decoding never accepts the constructed form, and lists written with an indefinite length end with end-of-contents octets and read back the same.",
  ["inputs"], "every byte string under a constructed header, for each string type and interface, nested, split at any place, in definite and indefinite form",
  "tests hold two segmented strings taken from the standard; misplaced end-of-contents, foreign, empty and nested segments are not tried",
  ["src/ber/appendable.rs", "src/asn1_types/octetstring.rs", "src/asn1_types/bitstring.rs", "src/asn1_types/strings.rs"],
  [("segments", "src/ber/appendable.rs"), ("string types", "src/asn1_types/strings.rs, src/asn1_types/strings/*.rs"), ("indefinite lists", "src/asn1_types/sequence/*.rs")],
  "inputs of up to 9 or 10 octets under a constructed header; nesting of up to 7 levels for the limit; strings of up to 4 octets split anywhere",
  "longer strings; an indefinite-length list inside an explicit tag or another list when writing is a known finding")
P("F04", "p_derive", "Derived structures decode and encode exactly the declared fields",
  "Decoding a derived SEQUENCE or SET succeeds if its contents are the declared fields in order, each with the declared tag, class, tagging and type, where optional and defaulted fields may be absent, and fails if a field is missing, has another tag or class, or does not decode as its type; the fields then have the encoded values, absent ones are none or their default. Encoding writes the present fields in order, as declared, under one constructed header, with the predicted lengths, and reads back the same.",
  ["inputs"], "every byte string and every value, for structures that cover plain, optional, defaulted, explicitly and implicitly tagged fields of three classes, in SEQUENCE and SET, nested, through all four decoding interfaces and both encoders",
  "tests hold a handful of valid encodings per attribute; an attribute mishandled for absent or wrongly tagged fields only shows on particular presences",
  ["derive/src/container.rs", "derive/src/sequence.rs", "derive/src/set.rs"],
  [("generated decoders and encoders", "derive/src/container.rs"), ("tagged fields", "src/asn1_types/tagged/*.rs")],
  "nine declared structures; contents of up to 8 or 9 octets under the right outer header, any input of up to 7 octets for the outer header, and valid encodings of every presence with any one octet replaced by any value",
  "other field types and attribute combinations; custom errors; octets after the last field, defaults written in DER, and stand-alone constraint checks of derived types are known findings")
P("F05", "p_choice", "Derived choices, enumerations and aliases select by tag and value",
  "Decoding a derived choice picks exactly the alternative whose tag and class the object carries, in the declared tagging, and fails if there is none or its contents do not decode; decoding a derived enumeration gives the variant with the encoded value and fails for undeclared values; a derived alias decodes and encodes as its type does. Encoding writes the declared tag and the value, with the predicted lengths, and reads back as the same variant.",
  ["inputs"], "every byte string and every value, for untagged, explicit and implicit choices with automatic and given tags (short and long), nested choices, enumerations with gaps, aliases of primitive, choice and generic types",
  "tests decode one object per variant; wrong classes, forms and neighbouring tag numbers are not tried",
  ["derive/src/choice.rs", "derive/src/enumerated.rs", "derive/src/alias.rs"],
  [("choice", "derive/src/choice.rs"), ("enumerated", "derive/src/enumerated.rs"), ("alias", "derive/src/alias.rs, derive/src/container.rs")],
  "inputs of up to 6 to 8 octets, and valid encodings with any one octet replaced; enumerated contents of up to 6 octets; four alternatives (tags 0, 5, 6, 200), six enumerated values up to 4294967294",
  "other declarations; DER constraints of aliased types in from_der, and octets after an explicitly tagged alternative, are known findings")

P("E05", "p_real", "REAL contents and values correspond exactly",
  "Decoding REAL gives exactly the sign, mantissa, base and exponent of a binary encoding (any base, scale factor and exponent form), the special value, zero for no contents, or the number a short decimal text denotes, and refuses reserved forms, missing octets, out-of-range exponents and text that is no number. Encoding a binary value writes the same number for every mantissa, exponent and encoding base with an odd mantissa, the fewest octets and the predicted length, and fails on what has no encoding; conversion to floats rounds once.",
  ["inputs"], "every contents of a binary encoding, every special octet, every short decimal text; every exponent for each kind of mantissa and encoding base",
  "tests hold about ten encodings; the exponent's length form, sign octet, scale factor and base interact, and only small ones are tried",
  ["src/asn1_types/real.rs", "src/asn1_types/real/f64.rs", "src/asn1_types/real/f32.rs"],
  [("decode_real", "src/asn1_types/real.rs"), ("ToBer for Real", "src/asn1_types/real.rs")],
  "every first octet; exponents of 0 to 5 octets; mantissas of up to 2 octets and 12 edge values in 0 to 9 octets; texts of up to 3 and of 4 characters; every 32-bit exponent (base 8: up to 700 either way; all in thorough) with 14 mantissas between 5e-324 and 1.8e308 and both signs when writing",
  "decimals of more than 15 digits (the mantissa is a float); DER restrictions on the form of REAL are not applied by the library (existing tests rely on it); minus zero (43) is refused")

P("D02", "p_encode", "Encoders write exactly what they report, or report that they failed",
  "Every encoding function writes exactly the predicted header and contents, in the predicted length, and returns the number of octets written, also when the writer takes them in pieces or is interrupted. If the writer fails or accepts no more, the function returns an error and what has been written is a prefix of the encoding. Lengths add up, and a sum with an indefinite length is indefinite.",
  ["inputs", "fault_sequences"], "every value of each encodable type, each writing function (whole, header, contents, tagged), and each point where the writer may stop, fail or accept only part",
  "tests write into vectors that never fail and rarely look at the count returned",
  ["src/to_ber.rs", "src/to_der.rs", "src/to_ber", "src/length.rs", "src/asn1_types"],
  [("encoding traits", "src/to_ber.rs, src/to_der.rs"), ("header encoders", "src/to_ber/*.rs"), ("lengths", "src/length.rs")],
  "18 types with contents of up to 256 octets (two distinct symbolic octets when long), 16-bit integers, every class and 32-bit tag number; writers that take 1 or 3 octets at a time, are interrupted once, or stop after 0, 1, 2, half or all but one octets in two ways",
  "larger contents; writers that fail and then recover; times (E04), REAL (E05), tagged (F01), optional (F06), choices (F05) and indefinite lists (F03) are covered there")

P("G04", "p_any", "All ways of decoding an object as a type agree",
  "Decoding an object as a type accepts the same encodings and gives the same value, consuming the same octets, whether it is parsed directly, in two steps (header, then contents), as an optional object, or generically first and then converted. What the DER decoders accept, the BER decoders accept with the same value. An object decoded as optional is absent only if it is of another type, and then nothing is consumed.",
  ["inputs"], "every octet string, for each type and each decoding entry point",
  "tests call one entry point per encoding; the entry points are separate code paths which drift apart on unusual encodings",
  ["src/from_ber.rs", "src/from_der.rs", "src/asn1_types/any.rs", "src/asn1_types", "src/derive.rs"],
  [("BerParser, FromBer", "src/from_ber.rs"), ("DerParser, FromDer", "src/from_der.rs"), ("TryFrom<Any>", "src/asn1_types/any.rs")],
  "38 types, all octet strings of up to 4 to 8 octets per type; times: fixed texts in which the tag, the length octet and one further octet are arbitrary",
  "longer encodings; derive entry points of ENUMERATED, REAL and times accept more than the DER parsers (known findings of C01, E04 and E05)")


P("H02", "p_tag", "An object is decoded only as the type it is tagged as",
  "An object whose tag number is not that of a type is refused by every way of decoding it as that type, as an element of a list, structure or tuple, and by every named conversion of a generic object; as an optional object it is absent. The named conversions give exactly what decoding gives. Tagged conversions and helpers check both class and number, and text is obtained only from character strings, joined if in segments.",
  ["inputs"], "every tag number (32 bits) and class, for each type, each entry point and each named conversion",
  "tests try one or two wrong tags for some types",
  ["src/asn1_types/any.rs", "src/from_ber.rs", "src/from_der.rs", "src/tag.rs"],
  [("accept_tag", "src/tag.rs"), ("impl_any_into, impl_any_as", "src/asn1_types/any.rs"), ("impl_tryfrom_any", "src/asn1_types/any.rs")],
  "43 types with one accepted contents each, every 32-bit tag number; 70 named conversions, also with contents cut short or one octet changed",
  "the class of objects of universal types is not checked by the library (known finding); other contents are decided by the properties of each type")

P("I01", "p_span", "Positions name the parts of the input they come with",
  "The remainder, the contents and the header octets of an object, and the location of an error, are parts of the input given, lying exactly at the offsets they report, also if the input does not start at offset 0. The remainder extends to the end of the input, header and contents are adjacent, and elements lie inside the object that holds them. Taking parts of an input keeps its offsets right.",
  ["inputs"], "every octet string and starting offset, for each type, in BER and DER",
  "tests look at offsets for one input, and never at the location of an error in nested objects",
  ["src/input.rs", "src/ber/parser.rs", "src/header.rs", "src/error.rs", "src/from_ber.rs", "src/from_der.rs", "src/asn1_types"],
  [("Input", "src/input.rs"), ("get_object_content", "src/ber/parser.rs"), ("raw_header", "src/header.rs"), ("BerError", "src/error.rs")],
  "35 types and derived structures, choices and sets, all octet strings of up to 5 to 10 octets, every starting offset below 65536",
  "objects that end early (reported as incomplete) have no location; errors of the decoders that take slices have none")

P("I02", "p_prefix", "An encoding cut short is reported as incomplete",
  "If an encoding is accepted, every strict beginning of it is reported as incomplete, or as an invalid tag if it ends inside a tag number: it is not taken for another object; longer inputs give the same object. The number of octets asked for, when given, is never more than is missing, and is exact for an object of definite length whose header is present. The same holds for each beginning of an incomplete input.",
  ["inputs"], "every octet string and each of its beginnings, for each type, in BER and DER",
  "callers that read from a stream rely on it at every cut, tests try one or two",
  ["src/header.rs", "src/ber/parser.rs", "src/from_ber.rs", "src/from_der.rs", "src/asn1_types"],
  [("parse_header", "src/header.rs"), ("get_object_content", "src/ber/parser.rs"), ("BerParser, DerParser", "src/from_ber.rs, src/from_der.rs")],
  "13 types with four decoders and 8 more with two, all octet strings of up to 6 to 10 octets and each beginning; definite lengths of 32 bits with up to 4 octets of contents",
  "an object cut short inside a complete enclosing object is reported as incomplete too")

P("G01", "p_own", "Equality, hashes and copies of values are faithful",
  "Two values are equal exactly if they denote the same object: the same class, number, form and contents wherever they stand in their inputs (headers also match if a length or the original identifier octets are unknown), the same bits, text, arcs or fields. Equality is symmetric, equal values hash alike and have the same DER encoding, and the order of times is total and agrees with equality. An owned or static copy equals the original, field by field, and borrows nothing.",
  ["inputs"], "every pair of values of each type, however they were obtained",
  "tests compare values read from one input and never look at hashes, positions or copies",
  ["src/header.rs", "src/asn1_types", "src/tostatic.rs", "derive/src/tostatic.rs", "src/datetime.rs"],
  [("PartialEq, Hash", "src/header.rs, src/asn1_types/any.rs"), ("ToStatic", "src/tostatic.rs, derive/src/tostatic.rs"), ("to_owned", "src/asn1_types/oid.rs")],
  "pairs of values with contents of up to 2 octets (identifiers 3), headers with every class, 32-bit number, 64-bit length and up to 2 original identifier octets, times with every field value, four derived declarations",
  "integers are equal if their contents octets are (redundant BER octets make equal numbers unequal); times with different zones are ordered by their fields; REAL values compare as floats")

P("E07", "p_pdv", "EMBEDDED PDV is decoded to its components",
  "Decoding an EMBEDDED PDV gives exactly the identification alternative it encodes with its one or two parts, the descriptor if there is one, and the data value, each as the octets present; the tag of the identification is explicit. Another class, number or form of a component, missing, empty or additional components, and unknown alternatives are refused. All entry points agree.",
  ["inputs"], "every short octet string, and every encoding of each alternative with any one octet replaced",
  "the library's documentation says that it has not been tested, and no test decodes one",
  ["src/asn1_types/embedded_pdv.rs"],
  [("EmbeddedPdv", "src/asn1_types/embedded_pdv.rs")],
  "all inputs of up to 9 octets beginning with the identifier; seven alternatives with parts of 1 or 2 octets, descriptor of 1 octet or none, data of 0 or 1 octet, and any one octet replaced; definite and indefinite lengths",
  "longer components; DER restrictions on the components are not applied by the library (known finding), and octets after the object inside an explicit tag are ignored (known finding of F01)")

P("G02", "p_view", "Functions applied to contents see exactly the contents",
  "Parsing an object and applying a function of the caller to its contents gives the function exactly the contents (with the header and position, where it takes them), and returns its result with what follows the object, whatever it leaves; its errors are passed on unchanged, and it's not called for another type, form or class. Views of a SEQUENCE or SET that consume, borrow or own the contents give the same elements; where owned contents cannot be lent, that is an error.".replace("it's", "it is"),
  ["inputs", "fault_sequences"], "every octet string, every function (leaving octets, or failing in each way), contents borrowed or owned",
  "tests pass functions that consume all contents and never fail, on borrowed contents",
  ["src/asn1_types/sequence.rs", "src/asn1_types/set.rs", "src/asn1_types/any.rs", "src/asn1_types/tagged/helpers.rs"],
  [("and_then, parse, iterators", "src/asn1_types/sequence.rs, src/asn1_types/set.rs"), ("from_ber_and_then", "src/asn1_types/any.rs"), ("parse_der_container", "src/asn1_types/tagged/helpers.rs")],
  "inputs of up to 7 octets, contents of up to 3 (elements: 7) octets, functions that leave 0 or 1 octets, fail, fail for good, or ask for more",
  "classes of universal types (known finding of H02); the helper for explicit tags does not check the form")

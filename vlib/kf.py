"""Writes known_findings.json: defects recorded (findings) and repaired (fixed). Run by hand, never by a check."""
import json, os
FINDINGS = [
  ("oid-second-arc-48", "E01", "k_second_arc", "", "2.100.3: second arcs of 48 and more (two octets for the leading arcs) are not split from the first; construction refuses them as documented"),
  ("oid-zero-zero", "E01", "k_zero_zero", "", "0.0: one octet 00 is given back as the single arc 0"),
  ("der-long-length", "C01", "k_length_form", "", "DER accepts lengths below 128 in long form and lengths with leading zero octets (02 81 01 05)"),
  ("der-long-tag", "C01", "k_tag_form", "", "DER accepts tag numbers below 31 in long form and redundant tag octets (1f 02 01 05)"),
  ("der-enumerated", "C01", "k_enumerated", "", "from_der accepts redundant ENUMERATED octets (0a 02 00 05), unlike parse_der; an existing test relies on it"),
  ("der-oid", "C01", "k_oid", "", "DER accepts redundant (leading 80) and unfinished OBJECT IDENTIFIER arcs"),
  ("der-fraction-zeros", "E04", "k_fraction_zeros", "", "GeneralizedTime in DER: trailing zeros of the fraction are accepted (20200102030405.30Z)"),
  ("der-utc-offset", "E04", "k_utc_der_offset", "", "UTCTime in DER: time differentials are accepted; existing tests rely on it"),
  ("der-utc-seconds", "E04", "k_utc_der_seconds", "", "UTCTime in DER: missing seconds are accepted"),
  ("implicit-nested", "F01", "k_implicit_nested", "", "[2] IMPLICIT over a tagged type with another tag ([APPLICATION 40] EXPLICIT INTEGER) is refused"),
  ("implicit-der", "F01", "k_implicit_der", "", "from_der of [5] IMPLICIT INTEGER accepts 85 02 00 05: DER constraints of the base type are not applied (its trait bounds do not allow it)"),
  ("set-order", "F02", "k_set_order", "", "SET OF elements are written in the order given, not sorted, in DER"),
  ("tuple-trailing", "F02", "k_tuple_trailing", "", "octets after the last element of a tuple are ignored (30 07 02 01 05 01 01 00 ff)"),
  ("nested-indefinite", "F03", "k_nested_indefinite", "", "an explicit tag around a list of indefinite length is not closed by end-of-contents octets"),
  ("list-of-indefinite", "F03", "k_list_of_indefinite", "", "a list of lists of indefinite length is not closed by end-of-contents octets"),
  ("struct-trailing", "F04", "k_trailing", "", "derived structures ignore octets after the last field (30 08 02 01 05 01 01 00 05 00)"),
  ("default-encoded", "F04", "k_default_encoded", "", "fields equal to their DEFAULT are written in DER"),
  ("derived-constraints", "F04", "k_check_constraints", "", "check_constraints of a derived type checks each field as if untagged and present: refuses tagged fields and absent ones"),
  ("choice-trailing", "F05", "k_trailing", "", "octets after the object of an explicitly tagged alternative are ignored"),
  ("alias-der", "F05", "k_alias_der", "", "from_der of a derived alias does not apply the DER constraints of its type (02 02 00 05)"),
  ("pdv-der", "E07", "k_der", "", "parse_der of EMBEDDED PDV accepts components of indefinite length (2b 0a a0 80 81 01 05 00 00 82 01 00)"),
  ("explicit-trailing", "F01", "k_trailing", "", "octets after the object inside an explicit tag are ignored (a0 04 02 01 05 ff)"),
  ("der-real-form", "E05", "k_der_form", "", "from_der accepts REAL in bases 8 and 16, with even mantissas, scale factors and redundant exponent octets; existing tests rely on it"),
  ("real-nr3", "E05", "k_nr3", "", "decimal REAL is written without the full stop DER requires (35 45 2d 31 for 0.5); existing tests rely on it"),
  ("class-unchecked", "H02", "k_class", "01", "the class of objects of universal types is not checked: 42 01 05 and 82 01 05 are decoded as INTEGER"),
  ("real-minus-zero", "E05", "k_minus_zero", "", "minus zero (09 01 43) is refused"),
]
FIXED = [
  ("A01", "e679bb6", "BOOLEAN DER constraint check panicked on empty contents"),
  ("A04", "be01e46", "ber_length_length one short from 0x1000000 up"),
  ("A03", "2927413", "tag numbers above 32 bits were truncated"),
  ("G01", "59fcdad", "equal headers hashed differently"),
  ("A02", "3f8db5c", "objects other than 00 00 ended an indefinite length"),
  ("E03", "d75e40c", "BMPString: empty and constructed encodings, odd octet counts"),
  ("E03", "2844a64", "UniversalString: empty and constructed encodings"),
  ("E03", "c6ff4f6", "UniversalString: encoded length of non-ASCII strings"),
  ("F03", "ab0ab17", "constructed strings: empty ones rejected, foreign segments accepted"),
  ("E02", "389b515", "BIT STRING DER padding bits were not checked"),
  ("E02", "3281275", "BIT STRING encoder left padding bits set"),
  ("E02", "101e5cc", "BitString from a bit slice that starts inside an octet"),
  ("E03", "9f2e6b1", "DEL accepted in VisibleString"),
  ("F02", "d1c0c40", "AnySequence, AnySet and SetOf were written as primitive"),
  ("F06", "08afdba", "OPTIONAL objects with indefinite length"),
  ("F06", "fff8843", "tag information of OPTIONAL objects"),
  ("F06", "d6eef5a", "absent OPTIONAL objects were encoded"),
  ("F04", "eb05814", "derived encoders: length of absent and tagged implicit fields"),
  ("F04", "cc0fd51", "derived parsers ignored the class of optional tagged fields"),
  ("F05", "c5091ce", "derived aliases of constructed types were written as primitive"),
  ("B01", "82b7d9b", "empty INTEGER contents were accepted"),
  ("E01", "c4815a2", "parsing a RELATIVE-OID gave an absolute identifier"),
  ("E01", "4bfcf2c", "leading arcs too large for one octet were truncated"),
  ("E01", "38aca15", "arcs of 64 bits starting with 1 were refused by the 64-bit iterator"),
  ("E01", "0bdb953", "wrong number of arcs left reported by the iterators"),
  ("B02", "205b4cd", "int! of 0 and of numbers whose highest bit is set"),
  ("E04", "84fe20d", "GeneralizedTime wrote milliseconds without leading zeros (5 ms as .5)"),
  ("E04", "6752ca8", "GeneralizedTime accepted four fractional digits without time zone"),
  ("E04", "fb640c4", "month 0 and day 0 were accepted"),
  ("E04", "eeaff23", "a time differential right after the minutes was refused"),
  ("E04", "5d4949c", "time differentials: range unchecked, -00mm read as positive, sign in text"),
  ("E04", "33edd53", "times with a differential were written as if in UTC; components out of range were written with more digits"),
  ("E04", "363cedd", "UtcTime::timestamp ignored the century"),
  ("E04", "f20ff17", "GeneralizedTime parse_der accepted missing seconds"),
  ("E04", "133f4e4", "GeneralizedTime accepted a decimal point without digits"),
  ("C01", "d487efd", "from_der accepted primitive SEQUENCE OF and SET OF"),
  ("F01", "c9aafd5", "explicit TaggedParser accepted primitive encodings"),
  ("F06", "d8652a7", "references to absent OPTIONAL objects were written with a tag"),
  ("F02", "76c00aa", "SequenceIteratorInput decoded elements of any tag"),
  ("F02", "c7036e7", "Any::iter_elements always used BER"),
  ("F03", "861cbd3", "segments of a foreign class were accepted; segments after an object of tag 0 were dropped"),
  ("F03", "977db89", "the same, for end-of-contents octets before the end"),
  ("F04", "146d4c7", "derived from_ber and from_der accepted primitive SEQUENCE and SET"),
  ("F05", "9d8f6d3", "derived tagged choices accepted any class"),
  ("F02", "239fea9", "tuples accepted primitive encodings"),
  ("E05", "f330ca3", "REAL exponents with a length octet are decoded"),
  ("E05", "01869d3", "REAL exponents of base 8 and 16 that overflow are an error"),
  ("E05", "1a41a1e", "REAL mantissas of eight octets are not negative"),
  ("E05", "eb70b52", "REAL decimal text: NR1 can be negative, words are not numbers"),
  ("E05", "684b85d", "REAL encoding keeps the value for every base, mantissa and exponent"),
  ("E05", "d884953", "REAL exponents are written in the fewest octets that hold their sign"),
  ("E05", "86c71a9", "REAL values whose mantissa or power alone is out of range or inexact"),
  ("E05", "4a40baf", "reserved forms of decimal REAL are not accepted"),
  ("E05", "a38e52e", "REAL from floats keeps the shortest decimal digits"),
  ("D02", "44dd95c", "to_der_len left out the header"),
  ("G01", "ad66688", "headers with different definite lengths were equal"),
  ("E07", "83167aa", "EMBEDDED PDV identification was read as implicitly tagged"),
  ("E02", "3cd9366", "BitString::new of no bits panicked"),
  ("H02", "7d2f7b5", "named conversions of generic objects ignored the tag (an OCTET STRING as INTEGER)"),
  ("H02", "c71f5d7", "text of constructed character strings included the headers of the segments"),
  ("H02", "18a3169", "relative_oid accepted constructed and empty encodings"),
  ("G01", "cf59c54", "equality of generic objects depended on their position (an object twice in a SET was kept twice)"),
  ("G02", "cc12643", "parse_ber_and_then and parse_der_and_then of SEQUENCE and SET accepted primitive encodings"),
  ("E07", "082fc4f", "primitive EMBEDDED PDV, identifications of other classes or forms and extra components were accepted"),
]
if __name__ == "__main__":
    d = {"findings": [dict(id=i, property=p, harness=h, input=x, what=w) for i, p, h, x, w in FINDINGS],
         "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]}
    json.dump(d, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w"), indent=1)

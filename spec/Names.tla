------------------------------- MODULE Names --------------------------------
(* Generated by tools/gen_names.py: literal texts as byte strings.            *)
EXTENDS Integers

TagName(tn) ==
  CASE tn = 0 -> <<69, 110, 100, 79, 102, 67, 111, 110, 116, 101, 110, 116>>  \* EndOfContent
    [] tn = 1 -> <<66, 111, 111, 108, 101, 97, 110>>  \* Boolean
    [] tn = 2 -> <<73, 110, 116, 101, 103, 101, 114>>  \* Integer
    [] tn = 3 -> <<66, 105, 116, 83, 116, 114, 105, 110, 103>>  \* BitString
    [] tn = 4 -> <<79, 99, 116, 101, 116, 83, 116, 114, 105, 110, 103>>  \* OctetString
    [] tn = 5 -> <<78, 117, 108, 108>>  \* Null
    [] tn = 6 -> <<79, 105, 100>>  \* Oid
    [] tn = 7 -> <<79, 98, 106, 101, 99, 116, 68, 101, 115, 99, 114, 105, 112, 116, 111, 114>>  \* ObjectDescriptor
    [] tn = 8 -> <<69, 120, 116, 101, 114, 110, 97, 108>>  \* External
    [] tn = 9 -> <<82, 101, 97, 108, 84, 121, 112, 101>>  \* RealType
    [] tn = 10 -> <<69, 110, 117, 109, 101, 114, 97, 116, 101, 100>>  \* Enumerated
    [] tn = 11 -> <<69, 109, 98, 101, 100, 100, 101, 100, 80, 100, 118>>  \* EmbeddedPdv
    [] tn = 12 -> <<85, 116, 102, 56, 83, 116, 114, 105, 110, 103>>  \* Utf8String
    [] tn = 13 -> <<82, 101, 108, 97, 116, 105, 118, 101, 79, 105, 100>>  \* RelativeOid
    [] tn = 16 -> <<83, 101, 113, 117, 101, 110, 99, 101>>  \* Sequence
    [] tn = 17 -> <<83, 101, 116>>  \* Set
    [] tn = 18 -> <<78, 117, 109, 101, 114, 105, 99, 83, 116, 114, 105, 110, 103>>  \* NumericString
    [] tn = 19 -> <<80, 114, 105, 110, 116, 97, 98, 108, 101, 83, 116, 114, 105, 110, 103>>  \* PrintableString
    [] tn = 20 -> <<84, 54, 49, 83, 116, 114, 105, 110, 103>>  \* T61String
    [] tn = 21 -> <<86, 105, 100, 101, 111, 116, 101, 120, 83, 116, 114, 105, 110, 103>>  \* VideotexString
    [] tn = 22 -> <<73, 97, 53, 83, 116, 114, 105, 110, 103>>  \* Ia5String
    [] tn = 23 -> <<85, 116, 99, 84, 105, 109, 101>>  \* UtcTime
    [] tn = 24 -> <<71, 101, 110, 101, 114, 97, 108, 105, 122, 101, 100, 84, 105, 109, 101>>  \* GeneralizedTime
    [] tn = 25 -> <<71, 114, 97, 112, 104, 105, 99, 83, 116, 114, 105, 110, 103>>  \* GraphicString
    [] tn = 26 -> <<86, 105, 115, 105, 98, 108, 101, 83, 116, 114, 105, 110, 103>>  \* VisibleString
    [] tn = 27 -> <<71, 101, 110, 101, 114, 97, 108, 83, 116, 114, 105, 110, 103>>  \* GeneralString
    [] tn = 28 -> <<85, 110, 105, 118, 101, 114, 115, 97, 108, 83, 116, 114, 105, 110, 103>>  \* UniversalString
    [] tn = 29 -> <<67, 104, 97, 114, 97, 99, 116, 101, 114, 83, 116, 114, 105, 110, 103>>  \* CharacterString
    [] tn = 30 -> <<66, 109, 112, 83, 116, 114, 105, 110, 103>>  \* BmpString
    [] OTHER -> << >>

KindName(k) ==
  CASE k = "eoc" -> <<69, 110, 100, 79, 102, 67, 111, 110, 116, 101, 110, 116>>  \* EndOfContent
    [] k = "bool" -> <<66, 111, 111, 108, 101, 97, 110>>  \* Boolean
    [] k = "int" -> <<73, 110, 116, 101, 103, 101, 114>>  \* Integer
    [] k = "enum" -> <<69, 110, 117, 109>>  \* Enum
    [] k = "oid" -> <<79, 73, 68>>  \* OID
    [] k = "reloid" -> <<82, 101, 108, 97, 116, 105, 118, 101, 79, 73, 68>>  \* RelativeOID
    [] k = "null" -> <<78, 117, 108, 108>>  \* Null
    [] k = "octets" -> <<79, 99, 116, 101, 116, 83, 116, 114, 105, 110, 103>>  \* OctetString
    [] k = "bits" -> <<66, 105, 116, 83, 116, 114, 105, 110, 103>>  \* BitString
    [] k = "gentime" -> <<71, 101, 110, 101, 114, 97, 108, 105, 122, 101, 100, 84, 105, 109, 101>>  \* GeneralizedTime
    [] k = "utctime" -> <<85, 84, 67, 84, 105, 109, 101>>  \* UTCTime
    [] k = "visible" -> <<86, 105, 115, 105, 98, 108, 101, 83, 116, 114, 105, 110, 103>>  \* VisibleString
    [] k = "general" -> <<71, 101, 110, 101, 114, 97, 108, 83, 116, 114, 105, 110, 103>>  \* GeneralString
    [] k = "graphic" -> <<71, 114, 97, 112, 104, 105, 99, 83, 116, 114, 105, 110, 103>>  \* GraphicString
    [] k = "printable" -> <<80, 114, 105, 110, 116, 97, 98, 108, 101, 83, 116, 114, 105, 110, 103>>  \* PrintableString
    [] k = "numeric" -> <<78, 117, 109, 101, 114, 105, 99, 83, 116, 114, 105, 110, 103>>  \* NumericString
    [] k = "utf8" -> <<85, 84, 70, 56, 83, 116, 114, 105, 110, 103>>  \* UTF8String
    [] k = "ia5" -> <<73, 65, 53, 83, 116, 114, 105, 110, 103>>  \* IA5String
    [] k = "t61" -> <<84, 54, 49, 83, 116, 114, 105, 110, 103>>  \* T61String
    [] k = "videotex" -> <<86, 105, 100, 101, 111, 116, 101, 120, 83, 116, 114, 105, 110, 103>>  \* VideotexString
    [] k = "objdesc" -> <<79, 98, 106, 101, 99, 116, 68, 101, 115, 99, 114, 105, 112, 116, 111, 114>>  \* ObjectDescriptor
    [] k = "bmp" -> <<66, 109, 112, 83, 116, 114, 105, 110, 103>>  \* BmpString
    [] k = "universal" -> <<85, 110, 105, 118, 101, 114, 115, 97, 108, 83, 116, 114, 105, 110, 103>>  \* UniversalString
    [] k = "unknown" -> <<85, 110, 107, 110, 111, 119, 110>>  \* Unknown
    [] k = "tagged" -> <<67, 111, 110, 116, 101, 120, 116, 83, 112, 101, 99, 105, 102, 105, 99>>  \* ContextSpecific
    [] k = "seq" -> <<83, 101, 113, 117, 101, 110, 99, 101>>  \* Sequence
    [] k = "set" -> <<83, 101, 116>>  \* Set
    [] k = "opt" -> <<78, 79, 78, 69>>  \* NONE

ClassName(c) ==
  CASE c = 0 -> <<85, 78, 73, 86, 69, 82, 83, 65, 76>>  \* UNIVERSAL
    [] c = 1 -> <<65, 80, 80, 76, 73, 67, 65, 84, 73, 79, 78>>  \* APPLICATION
    [] c = 2 -> <<67, 79, 78, 84, 69, 88, 84, 45, 83, 80, 69, 67, 73, 70, 73, 67>>  \* CONTEXT-SPECIFIC
    [] c = 3 -> <<80, 82, 73, 86, 65, 84, 69>>  \* PRIVATE

TrueT == <<116, 114, 117, 101>>  \* true
FalseT == <<102, 97, 108, 115, 101>>  \* false
IndefT == <<73, 110, 100, 101, 102, 105, 110, 105, 116, 101>>  \* Indefinite
RelT == <<114, 101, 108, 46, 32>>  \* rel.
OidT == <<79, 73, 68, 40>>  \* OID(
Utf32Err == <<32, 60, 101, 114, 114, 111, 114, 32, 100, 101, 99, 111, 100, 105, 110, 103, 32, 117, 116, 102, 51, 50, 32, 115, 116, 114, 105, 110, 103, 62, 10>>  \* <error decoding utf32 string>
TagT == <<84, 97, 103, 40>>  \* Tag(
HexT == <<32, 47, 32, 48, 120>>  \* / 0x
OptionT == <<79, 80, 84, 73, 79, 78, 32>>  \* OPTION
=============================================================================

"""Generates spec/Names.tla: the literal texts of the pretty printer as byte strings (TLA+ strings
cannot be indexed or concatenated with byte strings in TLC).  Run by hand; the result is committed."""
TAGS = {0: "EndOfContent", 1: "Boolean", 2: "Integer", 3: "BitString", 4: "OctetString", 5: "Null",
        6: "Oid", 7: "ObjectDescriptor", 8: "External", 9: "RealType", 10: "Enumerated",
        11: "EmbeddedPdv", 12: "Utf8String", 13: "RelativeOid", 16: "Sequence", 17: "Set",
        18: "NumericString", 19: "PrintableString", 20: "T61String", 21: "VideotexString",
        22: "Ia5String", 23: "UtcTime", 24: "GeneralizedTime", 25: "GraphicString",
        26: "VisibleString", 27: "GeneralString", 28: "UniversalString", 29: "CharacterString",
        30: "BmpString"}
KINDS = {"eoc": "EndOfContent", "bool": "Boolean", "int": "Integer", "enum": "Enum", "oid": "OID",
         "reloid": "RelativeOID", "null": "Null", "octets": "OctetString", "bits": "BitString",
         "gentime": "GeneralizedTime", "utctime": "UTCTime", "visible": "VisibleString",
         "general": "GeneralString", "graphic": "GraphicString", "printable": "PrintableString",
         "numeric": "NumericString", "utf8": "UTF8String", "ia5": "IA5String", "t61": "T61String",
         "videotex": "VideotexString", "objdesc": "ObjectDescriptor", "bmp": "BmpString",
         "universal": "UniversalString", "unknown": "Unknown", "tagged": "ContextSpecific",
         "seq": "Sequence", "set": "Set", "opt": "NONE"}
MISC = {"TrueT": "true", "FalseT": "false", "IndefT": "Indefinite", "RelT": "rel. ", "OidT": "OID(",
        "Utf32Err": " <error decoding utf32 string>\n", "TagT": "Tag(", "HexT": " / 0x", "OptionT": "OPTION "}
CLS = ["UNIVERSAL", "APPLICATION", "CONTEXT-SPECIFIC", "PRIVATE"]


def b(s):
    return "<<" + ", ".join(str(c) for c in s.encode()) + ">>"


out = ["------------------------------- MODULE Names --------------------------------",
       "(* Generated by tools/gen_names.py: literal texts as byte strings.            *)",
       "EXTENDS Integers", ""]
out.append("TagName(tn) ==\n  CASE " + "\n    [] ".join("tn = %d -> %s  \\* %s" % (k, b(v), v) for k, v in TAGS.items())
           + "\n    [] OTHER -> << >>\n")
out.append("KindName(k) ==\n  CASE " + "\n    [] ".join('k = "%s" -> %s  \\* %s' % (k, b(v), v) for k, v in KINDS.items()) + "\n")
out.append("ClassName(c) ==\n  CASE " + "\n    [] ".join("c = %d -> %s  \\* %s" % (k, b(v), v) for k, v in enumerate(CLS)) + "\n")
for k, v in MISC.items():
    out.append("%s == %s  \\* %s" % (k, b(v), v.strip()))
out.append("=" * 77)
open(__file__.rsplit("/", 2)[0] + "/spec/Names.tla", "w").write("\n".join(out) + "\n")

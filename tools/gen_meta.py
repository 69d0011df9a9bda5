"""writes properties.jsonl and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/ber/"
D = "src/der/"


def P(id, title, stmt, over, q, why, files, mech, note):
    return dict(id=id, title=title, stmt=stmt, over=over, q=q, why=why, files=files, mech=mech, note=note)


PS = [
 P("C01", "Every entry point is total: no panic, abort or hang on any input",
   "Every public operation of the crate, given any byte string and any documented argument, returns a value, an error or a request for more input in bounded time. It never panics, overflows the stack, loops forever or aborts the process, including the accessors, iterators, printer, serializer and visitors applied to whatever was decoded.",
   ["inputs"], "all byte strings (including deeply nested, huge declared lengths, truncated, long INTEGERs) and all objects obtained from them or built by hand",
   "The tests run a few hundred well-chosen inputs; the fuzz targets are not run and have no oracle beyond not crashing.",
   [B + "parser.rs", D + "parser.rs", B + "ber.rs", B + "print.rs", B + "serialize.rs", B + "visit.rs"],
   [("recursion limit", B + "parser.rs"), ("length checks before slicing", B + "parser.rs"), ("integer conversions", B + "ber.rs")],
   "Every call of every operation must produce one of the four outcomes of the specification; a panic, abort or hang is an outcome the specification does not have."),
 P("C02", "A successful parse consumes exactly one element, whatever follows it",
   "When a parser succeeds, the remaining input is the unmodified suffix of the input that starts right after the end of the element: header, contents and, for an indefinite length, the end-of-contents octets. Appending any bytes after a complete element changes neither the result nor what is consumed. An optional parser that finds nothing consumes nothing.",
   ["inputs"], "all inputs, both encoding rules, generic, typed, tagged, container and integer parsers, all suffixes",
   "Tests check the remainder for single examples, mostly with nothing behind the element.",
   [B + "parser.rs", D + "parser.rs", B + "multi.rs", D + "multi.rs", B + "tagged.rs", D + "tagged.rs"],
   [("element delimiting", B + "parser.rs"), ("container content slicing", B + "multi.rs")],
   "End of every element computed by the specification (recursive skip) and compared with the remainder returned by the code."),
 P("C03", "BER decoding yields exactly the encoded class, tag, structure and contents",
   "Decoding a BER element gives an object whose class, constructed flag, tag number, length, raw tag, type, contents octets and children are those of the encoding, at every nesting level, in both the definite and the indefinite form. Contents are returned without alteration and refer to the input at the position where they were read. Encodings whose contents are not valid for their universal type are refused (the code points of a UniversalString are not looked at).",
   ["inputs"], "all byte strings, any nesting, definite, long-form and indefinite lengths, all 31 universal tags and the other classes",
   "The tests cover one or two encodings of most types; combinations of length forms, nesting and neighbouring elements are unbounded.",
   [B + "parser.rs", B + "ber.rs", B + "wrap_any.rs"],
   [("generic decoder", B + "parser.rs"), ("content decoding by tag", B + "parser.rs"), ("conversion from a generic element", B + "wrap_any.rs")],
   "The recorded object is compared field by field (including the offset of every contents slice in the input) with the object the specification decodes."),
 P("C04", "DER decoding accepts only the distinguished forms, at every level",
   "The DER parsers refuse indefinite lengths, BOOLEAN contents other than 00 and FF, empty or non-minimal INTEGERs, BIT STRINGs with invalid or non-zero unused bits, constructed string types, and times that do not end in Z. The refusal applies to every element at every nesting level and to elements read through sequences, sets and tags. What is accepted is decoded to the same value as the distinguished encoding denotes.",
   ["inputs"], "all byte strings, all nesting levels, all ways of reaching an element",
   "Tests check some strict rules on single top-level elements only.",
   [D + "parser.rs", D + "multi.rs", D + "tagged.rs"],
   [("constraints on primitive contents", D + "parser.rs"), ("strict recursion into SEQUENCE and SET", D + "parser.rs"), ("definite header", D + "parser.rs")],
   "Acceptance and value decided by the specification for DER; the specification itself is model checked to accept only distinguished forms."),
 P("C05", "Whatever DER accepts, BER accepts with the identical result",
   "For every input and every parser that exists in both variants, if the DER variant succeeds then the BER variant succeeds, returns an equal object and consumes the same number of bytes.",
   ["inputs"], "all byte strings and all parser expressions available in both rules",
   "A relation between two functions over all inputs; no test compares them systematically.",
   [B + "parser.rs", D + "parser.rs", B + "multi.rs", D + "multi.rs", B + "tagged.rs", D + "tagged.rs"],
   [("two parser families with the same contents decoder", D + "parser.rs")],
   "Both variants are executed on the same input and the recorded pair is judged; the relation is also checked exhaustively on the specification."),
 P("C06", "The recursion limit bounds nesting and only nesting",
   "A parser given a maximum depth never returns an object nested deeper than it; the default entry points never exceed the documented default of 50, through indefinite lengths as well. An input that is within the limit is decoded exactly as without a limit, and one that exceeds it is refused with an error saying so, not by exhausting the stack.",
   ["inputs", "configurations"], "all limits from 0 up, nesting depths around the limit and far beyond it, all kinds of nesting (sequences, sets, indefinite lengths, mixed)",
   "One test parses one deep input; the exact boundary for each entry point and kind of nesting is never probed.",
   [B + "parser.rs", D + "parser.rs", B + "mod.rs"],
   [("depth counter", B + "parser.rs"), ("skipping of nested indefinite contents", B + "parser.rs"), ("default limit", B + "mod.rs")],
   "Boundary probed for every limit and kind of nesting; the specification's stack machine is model checked to respect it."),
 P("C07", "Truncated input asks for more and is never accepted or rejected early",
   "For every accepted element, parsing any proper prefix never succeeds and never returns a shorter element. The prefix is reported as incomplete (a prefix that ends inside a multi-byte identifier may be reported as an error instead). The same holds for parsers that apply a tag or type to one element.",
   ["inputs"], "all accepted inputs and all their proper prefixes",
   "Tests truncate a handful of inputs at one or two positions.",
   [B + "parser.rs", D + "parser.rs"],
   [("length check against the available bytes", B + "parser.rs"), ("header reading", B + "parser.rs")],
   "Every prefix of every generated element is executed and judged."),
 P("C08", "Integer accessors return the exact value or an error, never a wrapped one",
   "Reading a decoded INTEGER, ENUMERATED or BIT STRING as a 32-bit or 64-bit, signed or unsigned number or as a big integer gives the mathematical value of the contents octets, or an error if it does not fit the requested type. Negative values are refused by unsigned accessors. Leading zero octets never change the value.",
   ["inputs"], "contents octets of any length and value, all accessors",
   "Tests use a table of about twenty constants; boundaries of each width and sign with padding are not covered.",
   [B + "ber.rs", B + "integer.rs"],
   [("sign handling and width check", B + "ber.rs"), ("big integer conversion", B + "integer.rs")],
   "Values computed by the specification on byte strings (no native integers), compared with every accessor."),
 P("C09", "Native integer parsers agree with decoding an INTEGER and converting it",
   "The parsers that return a native integer directly accept exactly the primitive INTEGER elements whose value fits the type, return that value and consume that element; in DER they additionally refuse non-minimal contents. Any other element, value out of range or negative value for an unsigned type is an error.",
   ["inputs"], "all elements, both rules, four integer types",
   "Tests parse two or three constants per function.",
   [B + "parser.rs", D + "parser.rs"],
   [("typed integer parsers", B + "parser.rs"), ("typed integer parsers", D + "parser.rs")],
   "Specification of the parsers plus the law relating them to the generic parser, model checked."),
 P("C10", "BIT STRING access returns the bits of the encoding and nothing beyond",
   "Testing a bit by position returns the bit of the encoding, most significant first, and false for any position beyond the end. The conversion to a number takes exactly the used bits, right aligned, and fails if they exceed the width or the count of unused bits is larger than the string. The raw and sliced views expose the same octets.",
   ["inputs"], "bit strings of any length, all positions, all counts of unused bits",
   "Tests check one 4-byte bit string.",
   [B + "ber.rs"],
   [("bit test and slices", B + "ber.rs"), ("conversion to a number", B + "ber.rs")],
   "All bits and positions beyond the end compared with the specification."),
 P("C11", "String types accept exactly their character repertoire",
   "A string element is decoded if and only if its contents conform to the repertoire of its type: 7-bit for IA5, General, Graphic and ObjectDescriptor strings, digits and space for Numeric, the PrintableString set, visible characters and DEL for Visible, T61 and Videotex strings, well-formed UTF-8 and UTF-16. The decoded string is the contents octet for octet.",
   ["inputs"], "all contents octets of any length, all string types, both rules",
   "Tests use one valid and at most one invalid string per type.",
   [B + "parser.rs", B + "ber.rs"],
   [("per-type character check", B + "parser.rs")],
   "Automata for UTF-8 and UTF-16 and character sets in the specification; UTF-8 automaton model checked against code points. DEL is accepted in visible strings and UniversalString is unchecked (as the code documents by construction)."),
 P("C12", "Times decode to exactly the fields written and ill-formed times are refused",
   "A UTCTime or GeneralizedTime element decodes to the year, month, day, hour, minute, second, fraction (as a number of milliseconds) and zone written in it (a zone of less than an hour is kept without its sign), and is refused if a field is not numeric, out of range or missing. The DER parsers accept only times ending in Z. Encoding a decoded time and decoding it again gives the same time.",
   ["inputs"], "all contents octets, both types, both rules",
   "Tests use about ten literal times.",
   [B + "parser.rs", D + "parser.rs", B + "serialize.rs"],
   [("time contents", B + "parser.rs"), ("time serialization", B + "serialize.rs")],
   "Grammar of both types in the specification; every field and boundary enumerated."),
 P("C13", "Serializing an object and decoding the result gives the object back",
   "For every decoded object, and every hand-built object that has an encoding, serializing it and decoding the octets yields an object with equal class, tag, structure and contents and consumes everything, also through explicit and implicit tagging. Objects accepted under DER remain acceptable to DER after serialization.",
   ["inputs"], "all objects: decoded from any input in any length form, or built with the constructors; all tag classes and numbers",
   "Tests round-trip one small object per type.",
   [B + "serialize.rs", B + "parser.rs", D + "parser.rs"],
   [("length and tag encoding", B + "serialize.rs"), ("content encoding per type", B + "serialize.rs")],
   "Round trip executed on the code; expected result from the specification."),
 P("C14", "Serialized octets are the canonical definite-length encoding",
   "The serializer writes the minimal identifier octets and the minimal definite length, followed by the contents, for every object; the whole-object, generic, raw-header, explicit-tag and implicit-tag entry points write the octets that the tagging rules prescribe. Serializing what was decoded from a canonical DER encoding reproduces it byte for byte.",
   ["inputs"], "all objects, content lengths across every change of the length form, all classes and tag numbers",
   "Tests compare a few encodings shorter than 128 bytes with low tag numbers.",
   [B + "serialize.rs"],
   [("tag encoding", B + "serialize.rs"), ("length encoding", B + "serialize.rs"), ("tagged encoders", B + "serialize.rs")],
   "Octets computed by the specification's encoder, compared byte for byte."),
 P("C15", "SEQUENCE OF and SET OF return all elements in order or fail",
   "Parsing a homogeneous sequence or set returns the elements in order, each parsed with the given element parser, until the contents are exhausted. An element that fails, is truncated by the end of the container or leaves octets over makes the whole parse fail; elements are never dropped, reordered or read beyond the container.",
   ["inputs"], "all contents, element parsers (nested to any depth), both rules, object and native-value variants, definite and indefinite containers",
   "Tests parse three-element sequences.",
   [B + "multi.rs", D + "multi.rs"],
   [("repeat until the contents are exhausted", B + "multi.rs"), ("container tag check", B + "multi.rs")],
   "Combinator semantics in the specification; random nested parser expressions with matching and near-matching inputs."),
 P("C16", "Sequence, set and container parsers see exactly the contents of their element",
   "Parsing a SEQUENCE, SET or arbitrary container with a fixed list of parsers applies them in order to exactly the container's contents and returns their results in order; a parser never sees bytes outside the container. The element after the container is where parsing continues, even if the list left contents unread, and a wrong outer tag is an error.",
   ["inputs"], "all contents, all lists of element parsers, both rules, object and generic variants",
   "Tests use two-element sequences with nothing around them.",
   [B + "multi.rs", D + "multi.rs"],
   [("content slice passed to the inner parser", B + "multi.rs"), ("container tag check", D + "multi.rs")],
   "Combinator semantics in the specification, nested expressions."),
 P("C17", "Explicit and implicit tags are checked and transparent to the inner value",
   "An explicitly tagged element is accepted only if it is constructed, not universal and carries the expected tag number, and its value is what the inner parser reads from its contents; an implicitly tagged element is accepted only with the expected tag number and is decoded as the given type. The header of the outer element is the one reported.",
   ["inputs"], "all classes, forms, tag numbers including multi-byte ones, inner types and contents, both rules",
   "Tests use tags 0 to 3 with an INTEGER inside.",
   [B + "tagged.rs", D + "tagged.rs"],
   [("tag and form check", B + "tagged.rs"), ("content parsing under the outer header", B + "tagged.rs"), ("strict variants", D + "tagged.rs")],
   "Combinator semantics in the specification; a law relating tagging by the serializer and reading back is model checked."),
 P("C18", "OPTIONAL elements never fail and never consume what does not match",
   "An optional parser returns the element if the inner parser accepts it and otherwise the absent value without consuming anything, so the following parser sees the same bytes; it never turns a mismatch into an error. This also holds at the end of a container and for optional explicitly tagged elements.",
   ["inputs"], "all inputs and inner parsers, inside and outside containers, both rules",
   "Tests check one present and one absent case.",
   [B + "parser.rs", B + "tagged.rs", D + "tagged.rs"],
   [("fallback to the absent value", B + "parser.rs"), ("optional tagged element", B + "tagged.rs")],
   "Combinator semantics in the specification."),
 P("C19", "Typed parsers accept exactly the elements of their type",
   "The parser for a given universal type, and the parser for a given tag number, accept an element if and only if its tag number is the expected one and its contents are valid for that type; any other tag is an error that does not depend on the contents. On an element of that type they return exactly what the generic parser returns.",
   ["inputs"], "every typed parser against every tag number, class, form and contents, both rules",
   "Tests call each typed parser on its own type only.",
   [B + "parser.rs", D + "parser.rs"],
   [("tag check", B + "parser.rs"), ("one parser per type", B + "parser.rs"), ("one parser per type", D + "parser.rs")],
   "All typed parsers against all tags; law relating them to the generic parser model checked."),
 P("C20", "Visitors see every object once, depth first, with the right callback",
   "Walking an object calls the generic callback and then the callback of its type exactly once for the object and for every element of every nested sequence or set, parents before children, in order and with the right depth. The mutable walk makes the same calls and its changes, and only those, are visible in the object afterwards.",
   ["inputs"], "all objects, all starting depths, immutable and mutable walks",
   "Tests walk one object and count one kind of callback.",
   [B + "visit.rs", B + "visit_mut.rs"],
   [("dispatch on the type", B + "visit.rs"), ("recursion into sequences and sets", B + "visit.rs"), ("mutable dispatch", B + "visit_mut.rs")],
   "Sequence of callbacks with their arguments compared with the specification's walk."),
 P("C21", "Accessors, iterators and indexing expose exactly what was decoded",
   "The accessors return the contents for the types they apply to and an error for all others; header queries report the decoded class, form and tag. Iterating or indexing yields the elements of a sequence or set in order, once each, and nothing else; several iterators over the same object are independent of each other.",
   ["inputs", "histories"], "all objects, all accessors, all interleavings of iterators",
   "Tests call an accessor on the type it fits; mismatching types and interleaved iterators are not covered.",
   [B + "ber.rs", B + "mod.rs"],
   [("accessors by content type", B + "ber.rs"), ("iterators", B + "ber.rs"), ("indexing", B + "ber.rs")],
   "All accessors on all objects; recorded histories of iterator operations replayed on the specification; the iterator model is model checked."),
 P("C22", "The pretty printer renders every object faithfully",
   "The printed text shows for every object its type and contents (with the header if asked for), nested elements indented by the configured amount and in order, and stops at the first level if recursion is switched off. Every flag has the value last given to it, and setting one does not affect another.",
   ["inputs", "histories"], "all objects, indents, increments and histories of flag changes",
   "Tests print one object and compare nothing.",
   [B + "print.rs"],
   [("text of each type", B + "print.rs"), ("indentation", B + "print.rs"), ("flags", B + "print.rs")],
   "Full text computed by the specification, compared byte for byte."),
 P("C23", "Object identifiers written in source are encoded exactly or refused",
   "The compile-time macro turns a dotted identifier into its base-128 encoding for arcs of any size, absolute or relative, written with any spacing. An identifier that cannot be encoded (too few arcs, first arcs out of range) is refused at compile time, never silently encoded as another one.",
   ["inputs"], "all dotted identifiers, arcs of any magnitude, relative and absolute",
   "Tests encode about ten identifiers.",
   ["der-oid-macro/src/lib.rs"],
   [("base-128 encoding", "der-oid-macro/src/lib.rs"), ("range checks", "der-oid-macro/src/lib.rs")],
   "Thousands of invocations compiled; octets and refusals compared with the specification. The narrower range the macro documents (second arc below 40) is part of the specification."),
 P("C24", "Converting a generic element to an object agrees with decoding its bytes",
   "Converting a generically parsed element, borrowed or owned, to an object yields the same header and contents as decoding the bytes directly, at every nesting level and for definite and indefinite lengths, and fails where decoding fails.",
   ["inputs"], "all elements the generic parser of the underlying library accepts",
   "Tests convert a few elements.",
   [B + "wrap_any.rs"],
   [("content conversion", B + "wrap_any.rs"), ("recursion", B + "wrap_any.rs")],
   "Generic elements recorded with their offsets; expected object computed by the specification."),
 P("C25", "Headers decode to the class, form, tag and length that were written",
   "Reading a header returns the class, constructed flag, tag number, length and raw tag octets written in it, for single and multi-byte identifiers and for short, long and indefinite lengths, and leaves exactly the bytes after it. A reserved length octet, a length or tag that does not fit, an indefinite length on a primitive or in DER is refused.",
   ["inputs"], "all identifier and length octets, both rules",
   "Tests read headers with one-byte tags and a few lengths.",
   [B + "parser.rs", D + "parser.rs"],
   [("header readers", B + "parser.rs"), ("definite header", D + "parser.rs")],
   "All forms of identifier and length octets enumerated; shortest re-encoding law model checked."),
 P("C26", "Reading a stream in chunks yields the same objects as reading it whole",
   "A reader that buffers input arriving in chunks and calls the parser again whenever it asked for more obtains the same objects, with the same values and lengths, for every way of cutting the input into chunks. It is never told to wait for more when a whole element is in the buffer, and never given an object early.",
   ["histories", "schedules"], "all inputs and all ways of cutting them into chunks (cuts inside a multi-byte identifier may stop the reader)",
   "No test feeds input in chunks.",
   [B + "parser.rs", D + "parser.rs"],
   [("incomplete results", B + "parser.rs")],
   "Reader as a state machine: model checked over all chunkings, and recorded sessions of the real parser accepted or rejected by it."),
 P("C27", "Failures are classified as incomplete, an error of the right kind, or fatal",
   "Each failing call reports the class of failure that applies: more input needed, a recoverable error or an unrecoverable one, and for an error the kind that names the fault (wrong tag, wrong class, wrong form, invalid length, value too large, negative, constraint violated, nesting too deep). A malformed input is never reported as incomplete, and once an error is reported more input does not change it.",
   ["inputs"], "all refused inputs for all parsers, parser expressions and accessors",
   "Tests check the error of a few dozen inputs, often only that there is one.",
   [B + "parser.rs", D + "parser.rs", B + "multi.rs", B + "tagged.rs", "src/error.rs"],
   [("error values at each check", B + "parser.rs"), ("incomplete inside containers", B + "parser.rs")],
   "Kind of every error computed by the specification."),
 P("C28", "Constructors build the object their arguments describe",
   "An object built from contents, from integer octets, from a list of elements, from an object identifier or with an explicit header or raw tag has the class, form, tag and contents that its arguments describe. The tag and form of a type are those of its universal type, and equality compares contents and headers.",
   ["inputs"], "all contents, nestings and headers",
   "Tests build a few objects as expected values and never inspect them.",
   [B + "ber.rs"],
   [("constructors", B + "ber.rs"), ("universal tag of contents", B + "ber.rs"), ("equality", B + "ber.rs")],
   "Objects built by the specification compared field by field."),
 P("C29", "Combinators call user-supplied parsers as promised and return what they give",
   "A parser or body passed to a combinator (sequence or set of, defined sequence or set, container, explicit or implicit tag, optional, with the library's error type or the caller's own) is called once per element, in order, on exactly the contents octets that are left to it and never beyond the element, and a body also gets the header of that element. Its values come back unchanged and in order. The errors it returns come back as they are, of the caller's type, except that in a list an error is made unrecoverable and a request for more input becomes an error, and that optional turns them into absence. A returned parser can be used again on further input, and stateful callbacks see every call.",
   ["inputs", "histories"], "all expressions of combinators with user parsers (watching, stateful, failing), both error types, all inputs, repeated use",
   "Tests pass plain library parsers and look at the value; none counts calls, keeps state, or uses an error type of its own on failing input.",
   [B + "multi.rs", D + "multi.rs", B + "tagged.rs", D + "tagged.rs", B + "parser.rs"],
   [("list combinators", B + "multi.rs"), ("containers with a body", B + "multi.rs"), ("tagged bodies", B + "tagged.rs"), ("optional", B + "parser.rs")],
   "The log of calls to the user's parsers is part of the specification's state."),
]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["stmt"],
                "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: everything the specification talks about is visible through the public API."}
    for p in PS:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                            "technique": "TLA+ specification model checked with TLC; recorded calls of the implementation validated against it by TLC",
                            "level": "model_checking",
                            "level_note": p["note"] + " Bounded: exhaustive on the specification within the stated bounds, and on the implementation over the generated calls only."})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()

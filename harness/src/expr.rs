//! Expressions `name(arg,arg,...)`: combinator expressions and object constructors.
use crate::proj::*;
use asn1_rs::{ASN1DateTime, ASN1TimeZone, Any};
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerError;
use der_parser::oid::Oid;
use nom::IResult;

#[derive(Debug, Clone)]
pub enum Ex {
    Node(String, Vec<Ex>),
    Int(i64),
    Hex(Vec<u8>),
}

pub fn parse_ex(s: &str) -> Ex {
    let b = s.as_bytes();
    let mut p = 0;
    let e = go(b, &mut p);
    assert!(p == b.len(), "trailing text in expression");
    e
}

fn go(b: &[u8], p: &mut usize) -> Ex {
    let st = *p;
    while *p < b.len() && !matches!(b[*p], b'(' | b')' | b',') {
        *p += 1;
    }
    let w = std::str::from_utf8(&b[st..*p]).unwrap().to_string();
    let mut args = vec![];
    if *p < b.len() && b[*p] == b'(' {
        *p += 1;
        while b[*p] != b')' {
            args.push(go(b, p));
            if b[*p] == b',' {
                *p += 1;
            }
        }
        *p += 1;
        return Ex::Node(w, args);
    }
    if let Ok(n) = w.parse::<i64>() {
        return Ex::Int(n);
    }
    if let Some(h) = w.strip_prefix('x') {
        if h.bytes().all(|c| c.is_ascii_hexdigit()) {
            return Ex::Hex(hexb(h));
        }
    }
    Ex::Node(w, args)
}

impl Ex {
    pub fn int(&self) -> i64 {
        match self {
            Ex::Int(n) => *n,
            _ => panic!("integer expected"),
        }
    }
    pub fn hex(&self) -> &[u8] {
        match self {
            Ex::Hex(h) => h,
            _ => panic!("hex expected"),
        }
    }
    pub fn tag(&self) -> Tag {
        Tag(self.int() as u32)
    }
}

/// value of a combinator expression
pub enum V<'a> {
    Obj(BerObject<'a>),
    Num(Vec<u8>),
    Slice(&'a [u8]),
    Group(bool, Vec<V<'a>>),
    Hdr(Header<'a>, Vec<V<'a>>),
}

pub fn v_json(out: &mut String, v: &V, b: Base) {
    let list = |out: &mut String, l: &[V]| {
        for (j, x) in l.iter().enumerate() {
            if j > 0 {
                out.push(',');
            }
            v_json(out, x, b);
        }
    };
    match v {
        V::Obj(o) => obj(out, o, b),
        V::Num(n) => {
            out.push_str("{\"k\":\"num\",\"d\":");
            arr(out, n);
            out.push('}');
        }
        V::Slice(s) => {
            out.push_str("{\"k\":\"slice\",\"d\":");
            arr(out, s);
            out.push_str(&format!(",\"o\":{}}}", b.off(s)));
        }
        V::Group(seq, l) => {
            out.push_str(&format!(
                "{{\"c\":0,\"p\":1,\"t\":[0,0,0,{}],\"len\":0,\"raw\":[],\"k\":\"{}\",\"n\":[],\"d\":[],\"o\":-2,\"ch\":[",
                if *seq { 16 } else { 17 },
                if *seq { "seq" } else { "set" }
            ));
            list(out, l);
            out.push_str("]}");
        }
        V::Hdr(h, l) => {
            out.push('{');
            hdr_fields(out, h);
            out.push_str(",\"k\":\"seq\",\"n\":[],\"d\":[],\"o\":-2,\"ch\":[");
            list(out, l);
            out.push_str("]}");
        }
    }
}

type R<'a, T> = IResult<&'a [u8], T, BerError>;

fn as_obj<'a>(r: R<'a, V<'a>>) -> R<'a, BerObject<'a>> {
    match r? {
        (rem, V::Obj(o)) => Ok((rem, o)),
        _ => panic!("expression does not yield an object"),
    }
}

fn obj_of<'a>(e: &Ex, der: bool, i: &'a [u8]) -> R<'a, BerObject<'a>> {
    as_obj(run(e, der, i))
}

fn each<'a>(es: &[Ex], der: bool, i: &'a [u8]) -> R<'a, Vec<V<'a>>> {
    let mut i = i;
    let mut l = vec![];
    for e in es {
        let (r, v) = run(e, der, i)?;
        l.push(v);
        i = r;
    }
    Ok((i, l))
}

fn each_obj<'a>(es: &[Ex], der: bool, i: &'a [u8]) -> R<'a, Vec<BerObject<'a>>> {
    let mut i = i;
    let mut l = vec![];
    for e in es {
        let (r, v) = obj_of(e, der, i)?;
        l.push(v);
        i = r;
    }
    Ok((i, l))
}

fn wrap<'a>(r: R<'a, BerObject<'a>>) -> R<'a, V<'a>> {
    r.map(|(a, b)| (a, V::Obj(b)))
}

pub fn run<'a>(e: &Ex, der: bool, i: &'a [u8]) -> R<'a, V<'a>> {
    let (name, a) = match e {
        Ex::Node(n, a) => (n.as_str(), a),
        _ => panic!("bad expression"),
    };
    macro_rules! num {
        ($b:ident, $d:ident) => {{
            let r = if der { $d(i) } else { $b(i) };
            r.map(|(r, n)| (r, V::Num(n.to_be_bytes().to_vec())))
        }};
    }
    match name {
        "any" => wrap(if der { parse_der(i) } else { parse_ber(i) }),
        "t" => wrap(if der {
            parse_der_with_tag(i, a[0].tag())
        } else {
            parse_ber_with_tag(i, a[0].tag())
        }),
        "rec" => {
            let d = a[0].int() as usize;
            wrap(if der { parse_der_recursive(i, d) } else { parse_ber_recursive(i, d) })
        }
        "ty" => {
            let k = match &a[0] {
                Ex::Node(n, _) => n.as_str(),
                _ => panic!("bad type name"),
            };
            wrap(crate::typed(der, k)(i))
        }
        "i32" => num!(parse_ber_i32, parse_der_i32),
        "i64" => num!(parse_ber_i64, parse_der_i64),
        "u32" => num!(parse_ber_u32, parse_der_u32),
        "u64" => num!(parse_ber_u64, parse_der_u64),
        "seqof" => {
            let f = |j: &'a [u8]| obj_of(&a[0], der, j);
            wrap(if der { parse_der_sequence_of(f)(i) } else { parse_ber_sequence_of(f)(i) })
        }
        "setof" => {
            let f = |j: &'a [u8]| obj_of(&a[0], der, j);
            wrap(if der { parse_der_set_of(f)(i) } else { parse_ber_set_of(f)(i) })
        }
        "seqofv" => {
            let f = |j: &'a [u8]| run(&a[0], der, j);
            let r = if der { parse_der_sequence_of_v(f)(i) } else { parse_ber_sequence_of_v(f)(i) };
            r.map(|(r, l)| (r, V::Group(true, l)))
        }
        "setofv" => {
            let f = |j: &'a [u8]| run(&a[0], der, j);
            let r = if der { parse_der_set_of_v(f)(i) } else { parse_ber_set_of_v(f)(i) };
            r.map(|(r, l)| (r, V::Group(false, l)))
        }
        "seqdef" => {
            let f = |j: &'a [u8]| each_obj(a, der, j);
            wrap(if der { parse_der_sequence_defined(f)(i) } else { parse_ber_sequence_defined(f)(i) })
        }
        "setdef" => {
            let f = |j: &'a [u8]| each_obj(a, der, j);
            wrap(if der { parse_der_set_defined(f)(i) } else { parse_ber_set_defined(f)(i) })
        }
        "seqdefg" => {
            let f = |j: &'a [u8], h: Header<'a>| {
                let (r, l) = each(a, der, j)?;
                Ok((r, V::Hdr(h, l)))
            };
            if der { parse_der_sequence_defined_g(f)(i) } else { parse_ber_sequence_defined_g(f)(i) }
        }
        "setdefg" => {
            let f = |j: &'a [u8], h: Header<'a>| {
                let (r, l) = each(a, der, j)?;
                Ok((r, V::Hdr(h, l)))
            };
            if der { parse_der_set_defined_g(f)(i) } else { parse_ber_set_defined_g(f)(i) }
        }
        "cont" => {
            let f = |j: &'a [u8], h: Header<'a>| {
                let (r, l) = each(a, der, j)?;
                Ok((r, V::Hdr(h, l)))
            };
            if der { parse_der_container(f)(i) } else { parse_ber_container(f)(i) }
        }
        "expl" => {
            let f = |j: &'a [u8]| obj_of(&a[1], der, j);
            wrap(if der {
                parse_der_tagged_explicit(a[0].tag(), f)(i)
            } else {
                parse_ber_tagged_explicit(a[0].tag(), f)(i)
            })
        }
        "explg" => {
            let f = |j: &'a [u8], h: Header<'a>| {
                let (r, o) = obj_of(&a[1], der, j)?;
                let c = BerObjectContent::Tagged(h.class(), h.tag(), Box::new(o));
                Ok((r, BerObject::from_header_and_content(h, c)))
            };
            wrap(if der {
                parse_der_tagged_explicit_g(a[0].tag(), f)(i)
            } else {
                parse_ber_tagged_explicit_g(a[0].tag(), f)(i)
            })
        }
        "impl" => {
            let t = a[1].tag();
            wrap(if der {
                parse_der_tagged_implicit(a[0].tag(), parse_der_content(t))(i)
            } else {
                parse_ber_tagged_implicit(a[0].tag(), parse_ber_content(t))(i)
            })
        }
        "implg" => {
            let t = a[1].tag();
            let f = |j: &'a [u8], h: Header<'a>, d: usize| {
                let (r, c) = if der {
                    parse_der_content2(t)(j, h.clone(), d)?
                } else {
                    parse_ber_content2(t)(j, h.clone(), d)?
                };
                Ok((r, BerObject::from_header_and_content(h, c)))
            };
            wrap(if der {
                parse_der_tagged_implicit_g(a[0].tag(), f)(i)
            } else {
                parse_ber_tagged_implicit_g(a[0].tag(), f)(i)
            })
        }
        "implold" => {
            let t = a[1].tag();
            wrap(if der {
                parse_der_implicit(i, a[0].tag(), parse_der_content(t))
            } else {
                parse_ber_implicit(i, a[0].tag(), parse_ber_content(t))
            })
        }
        "opt" => wrap(parse_ber_optional(|j: &'a [u8]| obj_of(&a[0], der, j))(i)),
        "explopt" => {
            fn f<'x>(e: &Ex, der: bool, j: &'x [u8]) -> R<'x, BerObject<'x>> {
                obj_of(e, der, j)
            }
            wrap(if der {
                parse_der_explicit_optional(i, a[0].tag(), |j| f(&a[1], der, j))
            } else {
                parse_ber_explicit_optional(i, a[0].tag(), |j| f(&a[1], der, j))
            })
        }
        "slice" => {
            let r = if der { parse_der_slice(i, a[0].tag()) } else { parse_ber_slice(i, a[0].tag()) };
            r.map(|(r, s)| (r, V::Slice(s)))
        }
        "failure" => Err(nom::Err::Failure(BerError::Unsupported)),
        "nothing" => Ok((i, V::Obj(BerObject::from_obj(BerObjectContent::Optional(None))))),
        _ => panic!("unknown expression {}", name),
    }
}

pub fn class_of(n: i64) -> Class {
    match n {
        0 => Class::Universal,
        1 => Class::Application,
        2 => Class::ContextSpecific,
        _ => Class::Private,
    }
}

/// Build an object from a constructor expression
pub fn build(e: &Ex) -> BerObject<'_> {
    let (name, a) = match e {
        Ex::Node(n, a) => (n.as_str(), a),
        _ => panic!("bad object"),
    };
    let st = |k: usize| std::str::from_utf8(a[k].hex()).unwrap();
    use BerObjectContent::*;
    if name == "hdr" {
        // hdr(class, constructed, tag, object)
        let o = build(&a[3]);
        let h = Header::new(class_of(a[0].int()), a[1].int() == 1, a[2].tag(), Length::Definite(0));
        return BerObject::from_header_and_content(h, o.content);
    }
    if name == "rawtag" {
        return build(&a[1]).set_raw_tag(Some(a[0].hex()));
    }
    if name == "norawtag" {
        return build(&a[0]).set_raw_tag(None);
    }
    if name == "fromoid" {
        return BerObject::from(Oid::new(a[0].hex().into()));
    }
    if name == "fromcontent" {
        return BerObject::from(build(&a[0]).content);
    }
    if name == "intslice" {
        return BerObject::from_int_slice(a[0].hex());
    }
    if name == "fromseq" {
        return BerObject::from_seq(a.iter().map(build).collect());
    }
    if name == "fromset" {
        return BerObject::from_set(a.iter().map(build).collect());
    }
    let time = || ASN1DateTime {
        year: a[0].int() as u32,
        month: a[1].int() as u8,
        day: a[2].int() as u8,
        hour: a[3].int() as u8,
        minute: a[4].int() as u8,
        second: a[5].int() as u8,
        millisecond: if a[6].int() < 0 { None } else { Some(a[6].int() as u16) },
        tz: match a[7].int() {
            0 => ASN1TimeZone::Undefined,
            1 => ASN1TimeZone::Z,
            _ => ASN1TimeZone::Offset(a[8].int() as i8, a[9].int() as i8),
        },
    };
    let c = match name {
        "eoc" => EndOfContent,
        "null" => Null,
        "bool" => Boolean(a[0].int() != 0),
        "int" => Integer(a[0].hex()),
        "octets" => OctetString(a[0].hex()),
        "bits" => BitString(a[0].int() as u8, BitStringObject { data: a[1].hex() }),
        "enum" => {
            let h = a[0].hex();
            let mut v = 0u64;
            for b in h {
                v = (v << 8) | *b as u64;
            }
            Enum(v)
        }
        "oid" => OID(Oid::new(a[0].hex().into())),
        "reloid" => RelativeOID(Oid::new_relative(a[0].hex().into())),
        "numeric" => NumericString(st(0)),
        "visible" => VisibleString(st(0)),
        "printable" => PrintableString(st(0)),
        "ia5" => IA5String(st(0)),
        "utf8" => UTF8String(st(0)),
        "t61" => T61String(st(0)),
        "videotex" => VideotexString(st(0)),
        "objdesc" => ObjectDescriptor(st(0)),
        "graphic" => GraphicString(st(0)),
        "general" => GeneralString(st(0)),
        "bmp" => BmpString(a[0].hex()),
        "universal" => UniversalString(a[0].hex()),
        "utctime" => UTCTime(time()),
        "gentime" => GeneralizedTime(time()),
        "seq" => Sequence(a.iter().map(build).collect()),
        "set" => Set(a.iter().map(build).collect()),
        "some" => Optional(Some(Box::new(build(&a[0])))),
        "none" => Optional(None),
        "tagged" => Tagged(class_of(a[0].int()), a[1].tag(), Box::new(build(&a[2]))),
        "unknown" => Unknown(Any::new(
            Header::new(
                class_of(a[0].int()),
                a[1].int() == 1,
                a[2].tag(),
                Length::Definite(a[3].hex().len()),
            ),
            a[3].hex(),
        )),
        _ => panic!("unknown constructor {}", name),
    };
    BerObject::from_obj(c)
}

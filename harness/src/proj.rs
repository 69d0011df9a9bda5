//! Projection of the values of the library to JSON (the abstract state of the specification).
use asn1_rs::{ASN1DateTime, ASN1TimeZone, Any};
use der_parser::ber::*;
use der_parser::error::BerError;
use std::fmt::Write;

pub fn hexb(s: &str) -> Vec<u8> {
    assert!(s.len() % 2 == 0, "odd hex");
    let b = s.as_bytes();
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => panic!("bad hex"),
    };
    b.chunks(2).map(|p| d(p[0]) * 16 + d(p[1])).collect()
}

pub fn arr(out: &mut String, b: &[u8]) {
    out.push('[');
    for (k, x) in b.iter().enumerate() {
        if k > 0 {
            out.push(',');
        }
        let _ = write!(out, "{}", x);
    }
    out.push(']');
}

pub fn arri(out: &mut String, b: &[i64]) {
    out.push('[');
    for (k, x) in b.iter().enumerate() {
        if k > 0 {
            out.push(',');
        }
        let _ = write!(out, "{}", x);
    }
    out.push(']');
}

/// kind of an error, as named in the specification
pub fn ekind(e: &BerError) -> String {
    let d = format!("{:?}", e);
    let head: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
    match head.as_str() {
        "DerConstraintFailed" => {
            let inner: String = d[head.len()..].chars().filter(|c| c.is_alphanumeric()).collect();
            format!("Der:{}", inner)
        }
        "StringInvalidCharset" => "Charset".into(),
        _ => head,
    }
}

pub fn trim(b: &[u8]) -> &[u8] {
    let k = b.iter().position(|x| *x != 0).unwrap_or(b.len());
    &b[k..]
}

/// Position of slices relative to the input
#[derive(Clone, Copy)]
pub struct Base {
    pub p: usize,
    pub n: usize,
    /// show the Debug text of the objects inside Optional (the pretty printer uses it)
    pub dbg: bool,
}
impl Base {
    pub fn of(i: &[u8]) -> Base {
        Base { p: i.as_ptr() as usize, n: i.len(), dbg: false }
    }
    pub fn none() -> Base {
        Base { p: 0, n: 0, dbg: false }
    }
    pub fn off(&self, s: &[u8]) -> i64 {
        if s.is_empty() {
            return -2;
        }
        let a = s.as_ptr() as usize;
        if a >= self.p && a + s.len() <= self.p + self.n {
            (a - self.p) as i64
        } else {
            -1
        }
    }
}

pub fn time(t: &ASN1DateTime) -> Vec<i64> {
    let (z, h, m) = match t.tz {
        ASN1TimeZone::Undefined => (0, 0, 0),
        ASN1TimeZone::Z => (1, 0, 0),
        ASN1TimeZone::Offset(h, m) => (2, h as i64, m as i64),
    };
    vec![
        t.year as i64,
        t.month as i64,
        t.day as i64,
        t.hour as i64,
        t.minute as i64,
        t.second as i64,
        t.millisecond.map(|x| x as i64).unwrap_or(-1),
        z,
        h,
        m,
    ]
}

pub fn lenv(l: Length) -> i64 {
    match l {
        Length::Definite(n) if n < (1 << 28) => n as i64,
        Length::Definite(_) => -2,
        Length::Indefinite => -1,
    }
}
pub fn lenb(l: Length) -> Vec<u8> {
    match l {
        Length::Definite(n) => trim(&(n as u64).to_be_bytes()).to_vec(),
        Length::Indefinite => vec![],
    }
}

/// header fields: c, p, t, len, raw (no braces)
pub fn hdr_fields(out: &mut String, h: &Header) {
    let _ = write!(out, "\"c\":{},\"p\":{},\"t\":", h.class() as u8, h.constructed() as u8);
    arr(out, &h.tag().0.to_be_bytes());
    let _ = write!(out, ",\"len\":{},\"raw\":", lenv(h.length()));
    arr(out, h.raw_tag().unwrap_or(&[]));
}

pub fn hdr(out: &mut String, h: &Header) {
    out.push('{');
    hdr_fields(out, h);
    out.push_str(",\"lb\":");
    arr(out, &lenb(h.length()));
    out.push('}');
}

pub fn any(out: &mut String, a: &Any, b: Base) {
    out.push('{');
    hdr_fields(out, &a.header);
    out.push_str(",\"d\":");
    arr(out, a.data);
    let _ = write!(out, ",\"o\":{}}}", b.off(a.data));
}

pub fn kind(c: &BerObjectContent) -> &'static str {
    use BerObjectContent::*;
    match c {
        EndOfContent => "eoc",
        Boolean(_) => "bool",
        Integer(_) => "int",
        BitString(_, _) => "bits",
        OctetString(_) => "octets",
        Null => "null",
        Enum(_) => "enum",
        OID(_) => "oid",
        RelativeOID(_) => "reloid",
        NumericString(_) => "numeric",
        VisibleString(_) => "visible",
        PrintableString(_) => "printable",
        IA5String(_) => "ia5",
        UTF8String(_) => "utf8",
        T61String(_) => "t61",
        VideotexString(_) => "videotex",
        BmpString(_) => "bmp",
        UniversalString(_) => "universal",
        Sequence(_) => "seq",
        Set(_) => "set",
        UTCTime(_) => "utctime",
        GeneralizedTime(_) => "gentime",
        ObjectDescriptor(_) => "objdesc",
        GraphicString(_) => "graphic",
        GeneralString(_) => "general",
        Optional(_) => "opt",
        Tagged(_, _, _) => "tagged",
        Unknown(_) => "unknown",
    }
}

/// contents: n, d, o of the specification, and the children
pub fn parts<'a, 'b>(c: &'b BerObjectContent<'a>, b: Base) -> (Vec<i64>, std::borrow::Cow<'b, [u8]>, i64, Vec<&'b BerObject<'a>>) {
    use std::borrow::Cow;
    use BerObjectContent::*;
    let bytes = |n: &[i64], s: &'b [u8]| (n.to_vec(), Cow::Borrowed(s), b.off(s), vec![]);
    match c {
        EndOfContent | Null => (vec![], Cow::Borrowed(&[][..]), -2, vec![]),
        Boolean(v) => (vec![*v as i64], Cow::Borrowed(&[][..]), -2, vec![]),
        Integer(s) | OctetString(s) | BmpString(s) | UniversalString(s) => bytes(&[], s),
        BitString(p, s) => bytes(&[*p as i64], s.data),
        Enum(v) => (vec![], Cow::Owned(trim(&v.to_be_bytes()).to_vec()), -1, vec![]),
        OID(o) | RelativeOID(o) => bytes(&[], o.as_bytes()),
        NumericString(s) | VisibleString(s) | PrintableString(s) | IA5String(s)
        | UTF8String(s) | T61String(s) | VideotexString(s) | ObjectDescriptor(s)
        | GraphicString(s) | GeneralString(s) => bytes(&[], s.as_bytes()),
        UTCTime(t) | GeneralizedTime(t) => (time(t), Cow::Borrowed(&[][..]), -2, vec![]),
        Sequence(v) | Set(v) => (vec![], Cow::Borrowed(&[][..]), -2, v.iter().collect()),
        Optional(Some(x)) if b.dbg => (vec![], Cow::Owned(format!("{:?}", x).into_bytes()), -2, vec![x.as_ref()]),
        Optional(o) => (vec![], Cow::Borrowed(&[][..]), -2, o.iter().map(|x| x.as_ref()).collect()),
        Tagged(cl, t, x) => (vec![*cl as u8 as i64], Cow::Owned(t.0.to_be_bytes().to_vec()), -1, vec![x.as_ref()]),
        Unknown(a) => bytes(&[a.header.class() as u8 as i64, a.header.constructed() as i64], a.data),
    }
}

/// content fields k, n, d, o, ch (no braces)
pub fn content_fields(out: &mut String, c: &BerObjectContent, b: Base) {
    let (n, d, o, ch) = parts(c, b);
    let _ = write!(out, "\"k\":\"{}\",\"n\":", kind(c));
    arri(out, &n);
    out.push_str(",\"d\":");
    arr(out, &d);
    let _ = write!(out, ",\"o\":{},\"ch\":[", o);
    for (j, x) in ch.iter().enumerate() {
        if j > 0 {
            out.push(',');
        }
        obj(out, x, b);
    }
    out.push(']');
}

pub fn obj(out: &mut String, x: &BerObject, b: Base) {
    out.push('{');
    hdr_fields(out, &x.header);
    out.push(',');
    content_fields(out, &x.content, b);
    out.push('}');
}

pub fn content(out: &mut String, c: &BerObjectContent, b: Base) {
    out.push('{');
    content_fields(out, c, b);
    out.push('}');
}

/// result of a parser
pub fn presult<'a, T>(
    out: &mut String,
    i: &'a [u8],
    r: nom::IResult<&'a [u8], T, BerError>,
    f: impl FnOnce(&mut String, &T),
) {
    match r {
        Ok((rem, v)) => {
            out.push_str("{\"s\":\"ok\",\"v\":");
            f(out, &v);
            let sfx = rem.len() <= i.len()
                && (rem.is_empty()
                    || rem.as_ptr() as usize + rem.len() == i.as_ptr() as usize + i.len());
            let nx = i.len() as i64 - rem.len() as i64 + 1;
            let _ = write!(out, ",\"nx\":{},\"sfx\":{}}}", nx, sfx);
        }
        Err(e) => nomerr(out, &e),
    }
}

pub fn nomerr(out: &mut String, e: &nom::Err<BerError>) {
    match e {
        nom::Err::Incomplete(_) => out.push_str("{\"s\":\"inc\",\"e\":\"Incomplete\"}"),
        nom::Err::Error(e) => {
            let _ = write!(out, "{{\"s\":\"err\",\"e\":\"{}\"}}", ekind(e));
        }
        nom::Err::Failure(e) => {
            let _ = write!(out, "{{\"s\":\"fail\",\"e\":\"{}\"}}", ekind(e));
        }
    }
}

pub fn aresult<T>(out: &mut String, r: Result<T, BerError>, f: impl FnOnce(&mut String, T)) {
    match r {
        Ok(v) => {
            out.push_str("{\"s\":\"ok\",\"d\":");
            f(out, v);
            out.push('}');
        }
        Err(e) => {
            let _ = write!(out, "{{\"s\":\"err\",\"e\":\"{}\"}}", ekind(&e));
        }
    }
}

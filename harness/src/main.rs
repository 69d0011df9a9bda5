//! Conformance harness: executes requests against der-parser and records what it did.
//!
//! Input: one request per line, `id op args... hex`; output: one JSON line `{"id":..,"r":..}`
//! per request, flushed, so that the driver sees how far execution went if the process dies.
//! A panic is recorded as `{"s":"panic"}`, a request running for too long as `{"s":"hang"}`.
mod expr;
mod long;
mod proj;
mod user;
mod visitor;

use asn1_rs::{FromBer, FromDer};
use cookie_factory::gen_simple;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerError;
use expr::*;
use proj::*;
use std::convert::TryFrom;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::sync::atomic::{AtomicU64, Ordering};

fn len_arg(s: &str) -> Length {
    if s == "i" {
        Length::Indefinite
    } else {
        Length::Definite(u64::from_str_radix(s, 16).unwrap() as usize)
    }
}

type P = for<'a> fn(&'a [u8]) -> der_parser::error::BerResult<'a>;

pub fn typed(der: bool, name: &str) -> P {
    macro_rules! t {
        ($($n:literal => $b:ident, $d:ident;)*) => {
            match (der, name) {
                $((false, $n) => |i| $b(i), (true, $n) => |i| $d(i),)*
                _ => panic!("unknown type {}", name),
            }
        };
    }
    t! {
        "eoc" => parse_ber_endofcontent, parse_der_endofcontent;
        "bool" => parse_ber_bool, parse_der_bool;
        "int" => parse_ber_integer, parse_der_integer;
        "bits" => parse_ber_bitstring, parse_der_bitstring;
        "octets" => parse_ber_octetstring, parse_der_octetstring;
        "null" => parse_ber_null, parse_der_null;
        "oid" => parse_ber_oid, parse_der_oid;
        "enum" => parse_ber_enum, parse_der_enum;
        "utf8" => parse_ber_utf8string, parse_der_utf8string;
        "reloid" => parse_ber_relative_oid, parse_der_relative_oid;
        "seq" => parse_ber_sequence, parse_der_sequence;
        "set" => parse_ber_set, parse_der_set;
        "numeric" => parse_ber_numericstring, parse_der_numericstring;
        "visible" => parse_ber_visiblestring, parse_der_visiblestring;
        "visibleold" => parse_ber_visiblestring, visiblestring;
        "printable" => parse_ber_printablestring, parse_der_printablestring;
        "t61" => parse_ber_t61string, parse_der_t61string;
        "videotex" => parse_ber_videotexstring, parse_der_videotexstring;
        "ia5" => parse_ber_ia5string, parse_der_ia5string;
        "utctime" => parse_ber_utctime, parse_der_utctime;
        "gentime" => parse_ber_generalizedtime, parse_der_generalizedtime;
        "objdesc" => parse_ber_objectdescriptor, parse_der_objectdescriptor;
        "graphic" => parse_ber_graphicstring, parse_der_graphicstring;
        "general" => parse_ber_generalstring, parse_der_generalstring;
        "bmp" => parse_ber_bmpstring, parse_der_bmpstring;
        "universal" => parse_ber_universalstring, parse_der_universalstring;
    }
}

pub fn generic(der: bool, depth: &str) -> Box<dyn for<'a> Fn(&'a [u8]) -> der_parser::error::BerResult<'a>> {
    if depth == "-" {
        if der { Box::new(|i| parse_der(i)) } else { Box::new(|i| parse_ber(i)) }
    } else {
        let d: usize = depth.parse().unwrap();
        if der {
            Box::new(move |i| parse_der_recursive(i, d))
        } else {
            Box::new(move |i| parse_ber_recursive(i, d))
        }
    }
}

fn accessors(out: &mut String, o: &BerObject, base: Base) {
    macro_rules! a {
        ($n:literal, $r:expr, $f:expr) => {{
            out.push_str(concat!("\"", $n, "\":"));
            aresult(out, $r, $f);
            out.push(',');
        }};
    }
    out.push('{');
    a!("i64", o.as_i64(), |w, v| arr(w, &v.to_be_bytes()));
    a!("i32", o.as_i32(), |w, v| arr(w, &v.to_be_bytes()));
    a!("u64", o.as_u64(), |w, v| arr(w, &v.to_be_bytes()));
    a!("u32", o.as_u32(), |w, v| arr(w, &v.to_be_bytes()));
    a!("ci64", o.content.as_i64(), |w, v| arr(w, &v.to_be_bytes()));
    a!("ci32", o.content.as_i32(), |w, v| arr(w, &v.to_be_bytes()));
    a!("cu64", o.content.as_u64(), |w, v| arr(w, &v.to_be_bytes()));
    a!("cu32", o.content.as_u32(), |w, v| arr(w, &v.to_be_bytes()));
    a!("bigint", o.as_bigint(), |w, v| arr(w, &v.to_signed_bytes_be()));
    a!("biguint", o.as_biguint(), |w, v| arr(w, &v.to_bytes_be()));
    a!("bool", o.as_bool(), |w, v| arr(w, &[v as u8]));
    a!("oid", o.as_oid(), |w, v| arr(w, v.as_bytes()));
    a!("oid_val", o.as_oid_val(), |w, v| arr(w, v.as_bytes()));
    a!("bitstring", o.as_bitstring(), |w, v| arr(w, v.as_ref()));
    a!("bitstring_ref", o.as_bitstring_ref(), |w, v| arr(w, v.as_ref()));
    a!("slice", o.as_slice(), |w, v| arr(w, v));
    a!("bitslice", o.as_bitslice(), |w, v| {
        let b: Vec<u8> = v
            .chunks(8)
            .map(|c| c.iter().fold(0u8, |a, x| a * 2 + *x as u8))
            .collect();
        arr(w, &b)
    });
    a!("str", o.as_str(), |w, v| arr(w, v.as_bytes()));
    let ch = |w: &mut String, v: &[BerObject]| {
        w.push('[');
        for (j, x) in v.iter().enumerate() {
            if j > 0 {
                w.push(',');
            }
            obj(w, x, base);
        }
        w.push(']');
    };
    a!("sequence", o.as_sequence(), |w, v| ch(w, v));
    a!("set", o.as_set(), |w, v| ch(w, v));
    a!("optional", o.as_optional(), |w, v| ch(w, &v.into_iter().cloned().collect::<Vec<_>>()));
    a!("tagged", o.as_tagged(), |w, (c, t, x)| {
        let _ = write!(w, "[{},", c as u8);
        arr(w, &t.0.to_be_bytes());
        w.push(',');
        obj(w, x, base);
        w.push(']');
    });
    let b = |x: bool| x as u8;
    let r = |x: Result<(), BerError>| x.is_ok() as u8;
    out.push_str("\"flags\":");
    arr(
        out,
        &[
            o.class() as u8,
            b(o.is_universal()),
            b(o.is_application()),
            b(o.is_contextspecific()),
            b(o.is_private()),
            b(o.is_primitive()),
            b(o.is_constructed()),
            r(o.assert_class(Class::Universal)),
            r(o.assert_class(Class::Application)),
            r(o.assert_class(Class::ContextSpecific)),
            r(o.assert_class(Class::Private)),
            r(o.assert_constructed()),
            r(o.assert_primitive()),
        ],
    );
    out.push_str(",\"tag\":");
    arr(out, &o.tag().0.to_be_bytes());
    let _ = write!(out, ",\"length\":{}", lenv(o.length()));
    // assert_tag against the numbers 0..40 and the object's own tag
    out.push_str(",\"tags\":");
    let tags: Vec<u8> = (0..40u32).map(|t| r(o.assert_tag(Tag(t)))).collect();
    arr(out, &tags);
    let _ = write!(out, ",\"own\":{}}}", r(o.assert_tag(o.tag())));
}

fn list(out: &mut String, v: &[&BerObject], b: Base) {
    out.push('[');
    for (j, x) in v.iter().enumerate() {
        if j > 0 {
            out.push(',');
        }
        obj(out, x, b);
    }
    out.push(']');
}

fn bytes_result(out: &mut String, r: Result<Vec<u8>, cookie_factory::GenError>) -> Option<Vec<u8>> {
    match r {
        Ok(v) => {
            out.push_str("{\"s\":\"ok\",\"d\":");
            arr(out, &v);
            out.push('}');
            Some(v)
        }
        Err(_) => {
            out.push_str("{\"s\":\"err\",\"e\":\"GenError\"}");
            None
        }
    }
}

/// Everything the serializer says about one object
fn encodings(out: &mut String, o: &BerObject, cls: Class, tag: Tag, inner: Tag) {
    out.push_str("{\"enc\":");
    let v = bytes_result(out, o.to_vec());
    out.push_str(",\"gen\":");
    bytes_result(out, gen_simple(ber_encode_object(o), Vec::new()));
    if let Some(v) = v {
        out.push_str(",\"ber\":");
        presult(out, &v, parse_ber(&v), |w, x| obj(w, x, Base::of(&v)));
        out.push_str(",\"der\":");
        presult(out, &v, parse_der(&v), |w, x| obj(w, x, Base::of(&v)));
    }
    out.push_str(",\"raw\":");
    bytes_result(out, gen_simple(ber_encode_object_raw(&o.header, &o.content), Vec::new()));
    out.push_str(",\"expl\":");
    let e = bytes_result(out, gen_simple(ber_encode_tagged_explicit(tag, cls, o), Vec::new()));
    if let Some(e) = e {
        out.push_str(",\"explback\":");
        let r = parse_ber_tagged_explicit(tag, parse_ber)(&e);
        presult(out, &e, r, |w, x| obj(w, x, Base::of(&e)));
    }
    out.push_str(",\"impl\":");
    let e = bytes_result(out, gen_simple(ber_encode_tagged_implicit(tag, cls, o), Vec::new()));
    if let Some(e) = e {
        out.push_str(",\"implback\":");
        let r = parse_ber_tagged_implicit(tag, parse_ber_content(inner))(&e);
        presult(out, &e, r, |w, x| obj(w, x, Base::of(&e)));
    }
    out.push('}');
}

fn short<T>(r: &nom::IResult<&[u8], T, BerError>, n: usize) -> String {
    match r {
        Ok((rem, _)) => format!("{{\"s\":\"ok\",\"nx\":{}}}", n - rem.len() + 1),
        Err(nom::Err::Incomplete(_)) => "{\"s\":\"inc\"}".into(),
        Err(nom::Err::Error(_)) => "{\"s\":\"err\"}".into(),
        Err(nom::Err::Failure(_)) => "{\"s\":\"fail\"}".into(),
    }
}

fn equality(out: &mut String, x: &BerObject, y: &BerObject, y2: &BerObject) {
    out.push_str("{\"s\":\"ok\",\"a\":");
    obj(out, x, Base::none());
    out.push_str(",\"b\":");
    obj(out, y, Base::none());
    let _ = write!(out, ",\"eq\":{},\"qe\":{},\"ne\":{},\"ceq\":{},\"heq\":{},\"again\":{},\"clone\":{},\"cl\":",
        x == y, y == x, x != y, x.content == y.content, x.header == y.header, y == y2, x.clone() == *x && x.content.clone() == x.content);
    obj(out, &x.clone(), Base::none());
    out.push('}');
}

fn exec(out: &mut String, op: &str, a: &[&str], i: &[u8]) {
    let b = Base::of(i);
    let der = op.starts_with("der");
    match op {
        // generic parsers
        "ber" | "der" => presult(out, i, generic(der, a[0])(i), |w, x| obj(w, x, b)),
        "berx" => presult(out, i, parse_ber_any_r(i, a[0].parse().unwrap()), |w, x| obj(w, x, b)),
        // the same parser expression under both sets of rules
        "pair" => {
            let e = parse_ex(a[0]);
            out.push_str("{\"ber\":");
            presult(out, i, run(&e, false, i), |w, x| v_json(w, x, b));
            out.push_str(",\"der\":");
            presult(out, i, run(&e, true, i), |w, x| v_json(w, x, b));
            // the library's own notion of equality of the two objects
            let eq = match (run(&e, false, i), run(&e, true, i)) {
                (Ok((_, V::Obj(x))), Ok((_, V::Obj(y)))) => x == y,
                (Ok(_), Ok(_)) => true,
                _ => false,
            };
            let _ = write!(out, ",\"eq\":{}}}", eq);
        }
        "bertag" | "dertag" => {
            let t = Tag(a[0].parse().unwrap());
            let r = if der { parse_der_with_tag(i, t) } else { parse_ber_with_tag(i, t) };
            presult(out, i, r, |w, x| obj(w, x, b))
        }
        "bertagr" => {
            let r = parse_ber_any_with_tag_r(i, Tag(a[0].parse().unwrap()), a[1].parse().unwrap());
            presult(out, i, r, |w, x| obj(w, x, b))
        }
        "bert" | "dert" => presult(out, i, typed(der, a[0])(i), |w, x| obj(w, x, b)),
        "berhdr" | "derhdr" => {
            let r = if der { der_read_element_header(i) } else { ber_read_element_header(i) };
            presult(out, i, r, |w, x| hdr(w, x))
        }
        "berany" => presult(out, i, parse_ber_any(i), |w, x| any(w, x, b)),
        "bercontas" | "dercontas" => {
            let t = Tag(a[0].parse().unwrap());
            let l = len_arg(a[1]);
            let con = a[2] == "1";
            let d = a[3].parse().unwrap();
            let r = if der {
                der_read_element_content_as(i, t, l, con, d)
            } else {
                ber_read_element_content_as(i, t, l, con, d)
            };
            presult(out, i, r, |w, x| content(w, x, b))
        }
        // an object built by a constructor
        "build" => {
            let e = parse_ex(a[0]);
            let o = build(&e);
            out.push_str("{\"s\":\"ok\",\"v\":");
            obj(out, &o, Base::none());
            let o2 = build(&e);
            let _ = write!(out, ",\"eq\":{}}}", o == o2);
        }
        // equality: two built objects, or two decoded ones (the second from the hex argument)
        "eqbuild" => {
            let (e, f) = (parse_ex(a[0]), parse_ex(a[1]));
            equality(out, &build(&e), &build(&f), &build(&f));
        }
        "eqparse" => {
            let j = hexb(if a[0] == "." { "" } else { a[0] });
            match (parse_ber(i), parse_ber(&j)) {
                (Ok((_, x)), Ok((_, y))) => {
                    let z = parse_ber(&j).unwrap().1;
                    equality(out, &x, &y, &z)
                }
                _ => out.push_str("{\"s\":\"err\"}"),
            }
        }
        // header, then contents read with that header
        "dercont" => {
            let r = der_read_element_header(i).and_then(|(j, h)| der_read_element_content(j, h));
            presult(out, i, r, |w, x| obj(w, x, b))
        }
        // combinators
        "berexpr" | "derexpr" => {
            let e = parse_ex(a[0]);
            presult(out, i, run(&e, der, i), |w, x| v_json(w, x, b))
        }
        // long inputs: expression, copies, unit, suffix; the input is the prefix
        "berlong" | "derlong" => {
            let h = |k: usize| hexb(if a[k] == "." { "" } else { a[k] });
            long::long(out, &parse_ex(a[0]), der, a[1].parse().unwrap(), &h(2), &h(3), i)
        }
        // parsers supplied by the user: error type, how often
        "beruser" | "deruser" => {
            let e = parse_ex(a[2]);
            let n = a[1].parse().unwrap();
            if a[0] == "lib" {
                user::session::<BerError>(out, &e, der, n, i)
            } else {
                user::session::<user::Mine>(out, &e, der, n, i)
            }
        }
        // every proper prefix, and the whole
        "berprefix" | "derprefix" => {
            let e = parse_ex(a[0]);
            out.push('[');
            for k in 0..=i.len() {
                if k > 0 {
                    out.push(',');
                }
                out.push_str(&short(&run(&e, der, &i[..k]), k));
            }
            out.push(']');
        }
        // the same element alone, and followed by other bytes
        "bertrail" | "dertrail" => {
            let e = parse_ex(a[0]);
            out.push_str("{\"one\":");
            presult(out, i, run(&e, der, i), |w, x| v_json(w, x, b));
            let mut j = i.to_vec();
            j.extend_from_slice(&hexb(if a[1] == "." { "" } else { a[1] }));
            let j = j.into_boxed_slice();
            out.push_str(",\"two\":");
            presult(out, &j, run(&e, der, &j), |w, x| v_json(w, x, Base::of(&j)));
            out.push('}');
        }
        // a chunked reader: feed, then parse as long as objects come out
        "berstream" | "derstream" => {
            let mut buf: Vec<u8> = vec![];
            let mut pos = 0;
            out.push('[');
            let mut first = true;
            let mut ev = |out: &mut String, s: &str| {
                if !first {
                    out.push(',');
                }
                first = false;
                out.push_str(s);
            };
            let f = generic(der, "-");
            'outer: for c in a[0].split(',') {
                let n: usize = c.parse().unwrap();
                let n = n.min(i.len() - pos);
                buf.extend_from_slice(&i[pos..pos + n]);
                pos += n;
                ev(out, &format!("{{\"e\":\"feed\",\"n\":{}}}", n));
                while !buf.is_empty() {
                    let used = match f(&buf) {
                        Ok((rem, o)) => {
                            let mut s = String::from("{\"e\":\"obj\",\"v\":");
                            obj(&mut s, &o, Base::of(&buf));
                            let used = buf.len() - rem.len();
                            let _ = write!(s, ",\"n\":{}}}", used);
                            ev(out, &s);
                            used
                        }
                        Err(nom::Err::Incomplete(_)) => {
                            ev(out, "{\"e\":\"more\"}");
                            break;
                        }
                        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => {
                            ev(out, &format!("{{\"e\":\"error\",\"k\":\"{}\"}}", ekind(&e)));
                            break 'outer;
                        }
                    };
                    if used == 0 {
                        ev(out, "{\"e\":\"stuck\"}");
                        break 'outer;
                    }
                    buf.drain(..used);
                }
            }
            out.push(']');
        }
        // accessors on the object parsed from the input
        "acc" => match parse_ber(i) {
            Ok((_, o)) => {
                out.push_str("{\"s\":\"ok\",\"v\":");
                obj(out, &o, b);
                out.push_str(",\"acc\":");
                accessors(out, &o, b);
                out.push('}');
            }
            Err(e) => nomerr(out, &e),
        },
        "accbuild" => {
            let e = parse_ex(a[0]);
            let o = build(&e);
            out.push_str("{\"s\":\"ok\",\"v\":");
            obj(out, &o, Base::none());
            out.push_str(",\"acc\":");
            accessors(out, &o, Base::none());
            out.push('}');
        }
        // accessors on the object yielded by a combinator expression
        "accexpr" => {
            let e = parse_ex(a[1]);
            match run(&e, a[0] == "der", i) {
                Ok((_, V::Obj(o))) => {
                    out.push_str("{\"s\":\"ok\",\"v\":");
                    obj(out, &o, b);
                    out.push_str(",\"acc\":");
                    accessors(out, &o, b);
                    out.push('}');
                }
                Ok(_) => panic!("not an object"),
                Err(e) => nomerr(out, &e),
            }
        }
        // BIT STRING access: i is the data
        "bits" => {
            let s = BitStringObject { data: i };
            let upto = i.len() * 8 + 20;
            let bits: Vec<u8> = (0..upto).map(|k| s.is_set(k) as u8).collect();
            out.push_str("{\"set\":");
            arr(out, &bits);
            let far: Vec<u8> = [1000usize, 65536, usize::MAX, usize::MAX - 7, usize::MAX / 8]
                .iter()
                .map(|k| s.is_set(*k) as u8)
                .collect();
            out.push_str(",\"far\":");
            arr(out, &far);
            // 2^k, a little more, and one string length more
            out.push_str(",\"pows\":");
            let pows: Vec<u8> = (17..64)
                .flat_map(|k| [1usize << k, (1 << k) + 7, (1 << k) + i.len() * 4, (1usize << k) - 1])
                .map(|k| s.is_set(k) as u8)
                .collect();
            arr(out, &pows);
            let bs: Vec<u8> = s.as_bitslice().unwrap().iter().map(|x| *x as u8).collect();
            out.push_str(",\"slice\":");
            arr(out, &bs);
            out.push_str(",\"asref\":");
            arr(out, s.as_ref());
            let o = BerObject::from_obj(BerObjectContent::BitString(a[0].parse().unwrap(), s));
            out.push_str(",\"u64\":");
            aresult(out, o.as_u64(), |w, v| arr(w, &v.to_be_bytes()));
            out.push_str(",\"u32\":");
            aresult(out, o.as_u32(), |w, v| arr(w, &v.to_be_bytes()));
            out.push('}');
        }
        "iter" => match parse_ber(i) {
            Ok((_, o)) => iterate(out, &o, b),
            Err(e) => nomerr(out, &e),
        },
        "iterbuild" => {
            let e = parse_ex(a[0]);
            let o = build(&e);
            iterate(out, &o, Base::none())
        }
        // a history of operations on iterators of the same object: a, b = next of two borrowing
        // iterators, i = next of an owning one, r = restart a
        "itops" => match parse_ber(i) {
            Ok((_, o)) => itops(out, &o, a[0], b),
            Err(e) => nomerr(out, &e),
        },
        "itopsbuild" => {
            let e = parse_ex(a[1]);
            let o = build(&e);
            itops(out, &o, a[0], Base::none())
        }
        "walk" => match parse_ber(i) {
            Ok((_, o)) => walk(out, o, a[0].parse().unwrap(), b),
            Err(e) => nomerr(out, &e),
        },
        "walkexpr" => {
            let e = parse_ex(a[1]);
            match run(&e, false, i) {
                Ok((_, V::Obj(o))) => walk(out, o, a[0].parse().unwrap(), b),
                Ok(_) => panic!("not an object"),
                Err(e) => nomerr(out, &e),
            }
        }
        "walkbuild" => {
            let e = parse_ex(a[1]);
            walk(out, build(&e), a[0].parse().unwrap(), Base::none())
        }
        // pretty printer: indent, increment, flags (r = recursive, h = show header)
        "pretty" => match parse_ber(i) {
            Ok((_, o)) => pretty(out, &o, a, b),
            Err(e) => nomerr(out, &e),
        },
        "prettybuild" => {
            let e = parse_ex(a[3]);
            let o = build(&e);
            pretty(out, &o, a, Base::none())
        }
        // serializer
        "enc" => match parse_ber(i) {
            Ok((_, o)) => {
                out.push_str("{\"s\":\"ok\",\"v\":");
                obj(out, &o, b);
                out.push_str(",\"x\":");
                let inner = o.header.tag();
                encodings(out, &o, class_of(a[0].parse().unwrap()), Tag(a[1].parse().unwrap()), inner);
                out.push('}');
            }
            Err(e) => nomerr(out, &e),
        },
        "encexpr" => {
            let e = parse_ex(a[2]);
            match run(&e, false, i) {
                Ok((_, V::Obj(o))) => {
                    out.push_str("{\"s\":\"ok\",\"v\":");
                    obj(out, &o, b);
                    out.push_str(",\"x\":");
                    let inner = o.header.tag();
                    encodings(out, &o, class_of(a[0].parse().unwrap()), Tag(a[1].parse().unwrap()), inner);
                    out.push('}');
                }
                Ok(_) => panic!("not an object"),
                Err(e) => nomerr(out, &e),
            }
        }
        "encbuild" => {
            let e = parse_ex(a[2]);
            let o = build(&e);
            out.push_str("{\"s\":\"ok\",\"v\":");
            obj(out, &o, Base::none());
            out.push_str(",\"x\":");
            let inner = o.header.tag();
            encodings(out, &o, class_of(a[0].parse().unwrap()), Tag(a[1].parse().unwrap()), inner);
            out.push('}');
        }
        "enchdr" => {
            let h = Header::new(
                class_of(a[0].parse().unwrap()),
                a[1] == "1",
                Tag(a[2].parse().unwrap()),
                len_arg(a[3]),
            );
            out.push_str("{\"enc\":");
            let v = bytes_result(out, gen_simple(ber_encode_header(&h), Vec::new()));
            if let Some(v) = v {
                out.push_str(",\"back\":");
                presult(out, &v, ber_read_element_header(&v), |w, x| hdr(w, x));
            }
            out.push('}');
        }
        // conversion of asn1_rs::Any
        "tryany" => {
            let r = if a[0] == "der" { asn1_rs::Any::from_der(i) } else { asn1_rs::Any::from_ber(i) };
            match r {
                Ok((_, x)) => {
                    out.push_str("{\"s\":\"ok\",\"any\":");
                    any(out, &x, b);
                    out.push_str(",\"ref\":");
                    match BerObject::try_from(&x) {
                        Ok(o) => {
                            out.push_str("{\"s\":\"ok\",\"v\":");
                            obj(out, &o, b);
                            out.push('}');
                        }
                        Err(e) => {
                            let _ = write!(out, "{{\"s\":\"err\",\"e\":\"{}\"}}", ekind(&e));
                        }
                    }
                    out.push_str(",\"own\":");
                    match BerObject::try_from(x) {
                        Ok(o) => {
                            out.push_str("{\"s\":\"ok\",\"v\":");
                            obj(out, &o, b);
                            out.push('}');
                        }
                        Err(e) => {
                            let _ = write!(out, "{{\"s\":\"err\",\"e\":\"{}\"}}", ekind(&e));
                        }
                    }
                    out.push('}');
                }
                Err(e) => nomerr(out, &e),
            }
        }
        // everything, only for its effects (totality): one letter per call
        "total" => total(out, i),
        _ => panic!("unknown op {}", op),
    }
}

fn iterate(out: &mut String, o: &BerObject, b: Base) {
    out.push_str("{\"s\":\"ok\",\"v\":");
    obj(out, o, b);
    out.push_str(",\"ref\":");
    let v: Vec<&BerObject> = o.ref_iter().collect();
    list(out, &v, b);
    let mut it = o.ref_iter();
    while it.next().is_some() {}
    let after = it.next().is_some() as u8 + it.next().is_some() as u8;
    out.push_str(",\"into\":");
    let v: Vec<BerObject> = o.clone().into_iter().collect();
    list(out, &v.iter().collect::<Vec<_>>(), b);
    let mut it = o.clone().into_iter();
    while it.next().is_some() {}
    let after2 = it.next().is_some() as u8 + it.next().is_some() as u8;
    let n = o.ref_iter().count();
    out.push_str(",\"idx\":");
    let v: Vec<&BerObject> = (0..n).map(|k| &o[k]).collect();
    list(out, &v, b);
    let oob = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _ = &o[n];
    }))
    .is_err();
    let _ = write!(out, ",\"after\":[{},{}],\"oob\":{}}}", after, after2, oob);
}

fn itops(out: &mut String, o: &BerObject, ops: &str, base: Base) {
    out.push_str("{\"s\":\"ok\",\"v\":");
    obj(out, o, base);
    out.push_str(",\"ev\":[");
    let mut a = o.ref_iter();
    let mut b = o.ref_iter();
    let mut i = o.clone().into_iter();
    let mut first = true;
    for c in ops.chars() {
        let mut l: Vec<BerObject> = vec![];
        let mut hint = (0, None);
        match c {
            'a' => l.extend(a.next().cloned()),
            'b' => l.extend(b.next().cloned()),
            'i' => l.extend(i.next()),
            'r' => a = o.ref_iter(),
            'R' => i = o.clone().into_iter(),
            'A' => l.extend(a.nth(1).cloned()),
            'I' => l.extend(i.nth(1)),
            'd' => l.extend(a.by_ref().cloned()),
            'D' => l.extend(i.by_ref()),
            'h' => hint = a.size_hint(),
            'H' => hint = i.size_hint(),
            _ => panic!("bad iterator operation"),
        }
        if !first {
            out.push(',');
        }
        first = false;
        let _ = write!(out, "{{\"e\":\"{}\",\"lo\":{},\"hi\":{},\"l\":", c, hint.0, hint.1.map_or(-1, |n| n as i64));
        list(out, &l.iter().collect::<Vec<_>>(), base);
        out.push('}');
    }
    out.push_str("]}");
}

fn walk(out: &mut String, o: BerObject, depth: usize, b: Base) {
    out.push_str("{\"s\":\"ok\",\"v\":");
    obj(out, &o, b);
    let run_ref = |d: Option<usize>| {
        let mut r = visitor::Rec::default();
        let x: Box<BerObject> = Box::new(o.clone());
        // the visitor traits want a borrow as long as the object's own lifetime
        let p: *mut BerObject = Box::into_raw(x);
        match d {
            None => Visit::run(&mut r, unsafe { &*(p as *const BerObject) }),
            Some(d) => Visit::run_at(&mut r, unsafe { &*(p as *const BerObject) }, d),
        }
        drop(unsafe { Box::from_raw(p) });
        r.out
    };
    let _ = write!(out, ",\"run\":[{}],\"at\":[{}]", run_ref(None), run_ref(Some(depth)));
    for (name, d, mutate) in [("mrun", None, false), ("mat", Some(depth), false), ("mut", None, true)] {
        let mut r = visitor::Rec { mutate, ..Default::default() };
        let p: *mut BerObject = Box::into_raw(Box::new(o.clone()));
        match d {
            None => VisitMut::run(&mut r, unsafe { &mut *p }),
            Some(d) => VisitMut::run_at(&mut r, unsafe { &mut *p }, d),
        }
        let _ = write!(out, ",\"{}\":[{}],\"{}v\":", name, r.out, name);
        obj(out, unsafe { &*p }, b);
        drop(unsafe { Box::from_raw(p) });
    }
    out.push('}');
}

fn pretty(out: &mut String, o: &BerObject, a: &[&str], b: Base) {
    let mut p = o.as_pretty(a[0].parse().unwrap(), a[1].parse().unwrap());
    let mut fl = String::new();
    for c in a[2].chars() {
        match c {
            'r' => p.set_flag(PrettyPrinterFlag::Recursive),
            'R' => p.unset_flag(PrettyPrinterFlag::Recursive),
            'h' => p.set_flag(PrettyPrinterFlag::ShowHeader),
            'H' => p.unset_flag(PrettyPrinterFlag::ShowHeader),
            'n' => p = p.next_indent(o),
            _ => continue,
        }
        let r = p.is_flag_set(PrettyPrinterFlag::Recursive);
        let h = p.is_flag_set(PrettyPrinterFlag::ShowHeader);
        if !fl.is_empty() {
            fl.push(',');
        }
        let _ = write!(fl, "[{},{}]", r as u8, h as u8);
    }
    let t = format!("{:?}", p);
    out.push_str("{\"s\":\"ok\",\"v\":");
    obj(out, o, Base { dbg: true, ..b });
    out.push_str(",\"text\":");
    arr(out, t.as_bytes());
    let _ = write!(out, ",\"flags\":[{}]}}", fl);
}

/// every entry point on the same input; all results are consumed
fn total(out: &mut String, i: &[u8]) {
    let mut n = 0u32;
    let mut ok = 0u32;
    let mut see = |b: bool| {
        n += 1;
        ok += b as u32;
    };
    let use_obj = |o: &BerObject| {
        let mut s = String::new();
        accessors(&mut s, o, Base::none());
        s.clear();
        iterate(&mut s, o, Base::none());
        s.clear();
        walk(&mut s, o.clone(), 1, Base::none());
        s.clear();
        pretty(&mut s, o, &["1", "2", "h"], Base::none());
        let _ = o.to_vec();
        s.clear();
        encodings(&mut s, o, Class::Application, Tag(7), o.header.tag());
        let _ = format!("{:?}", o);
        let _ = o == o;
    };
    for der in [false, true] {
        for d in ["-", "0", "1", "2", "3", "60"] {
            let f = generic(der, d);
            let r = f(i);
            see(r.is_ok());
            if let Ok((_, o)) = r {
                if d == "-" {
                    use_obj(&o);
                }
            }
        }
        for t in [
            "eoc", "bool", "int", "bits", "octets", "null", "oid", "enum", "utf8", "reloid", "seq",
            "set", "numeric", "visible", "printable", "t61", "videotex", "ia5", "utctime",
            "gentime", "objdesc", "graphic", "general", "bmp", "universal",
        ] {
            see(typed(der, t)(i).is_ok());
        }
        for e in [
            "i32", "i64", "u32", "u64", "seqof(any)", "setof(any)", "seqofv(u32)", "setofv(u64)",
            "seqdef(any,any)", "setdef(any,opt(t(2)))", "seqdefg(any,u32)", "setdefg(any)",
            "cont(any,any)", "expl(0,any)", "explg(1,t(2))", "impl(0,2)", "impl(0,16)", "implg(0,3)",
            "implold(2,4)", "opt(any)", "opt(expl(0,any))", "explopt(0,t(2))", "slice(16)", "slice(4)",
            "seqof(seqof(any))", "expl(0,expl(1,any))", "impl(1,17)", "impl(0,23)", "impl(0,30)",
        ] {
            let r = run(&parse_ex(e), der, i);
            see(r.is_ok());
            if let Ok((_, V::Obj(o))) = r {
                use_obj(&o);
            }
        }
        let h = if der { der_read_element_header(i) } else { ber_read_element_header(i) };
        see(h.is_ok());
    }
    for t in 0..32u32 {
        for con in [false, true] {
            for l in [Length::Indefinite, Length::Definite(i.len()), Length::Definite(i.len() / 2),
                      Length::Definite(i.len() + 1), Length::Definite(usize::MAX), Length::Definite(0)] {
                see(ber_read_element_content_as(i, Tag(t), l, con, 3).is_ok());
                see(der_read_element_content_as(i, Tag(t), l, con, 3).is_ok());
            }
        }
    }
    if let Ok((j, h)) = der_read_element_header(i) {
        see(der_read_element_content(j, h).is_ok());
    }
    if let Ok((_, x)) = asn1_rs::Any::from_ber(i) {
        see(BerObject::try_from(&x).is_ok());
        see(BerObject::try_from(x).is_ok());
    }
    let o = BerObject::from_int_slice(i);
    use_obj(&o);
    for pad in [0u8, 1, 7, 8, 9, 64, 255] {
        let o = BerObject::from_obj(BerObjectContent::BitString(pad, BitStringObject { data: i }));
        see(o.as_u64().is_ok());
        see(o.as_u32().is_ok());
        use_obj(&o);
    }
    let o = BerObject::from_obj(BerObjectContent::BmpString(i));
    use_obj(&o);
    let o = BerObject::from_obj(BerObjectContent::UniversalString(i));
    use_obj(&o);
    let _ = write!(out, "{{\"s\":\"ok\",\"n\":{},\"ok\":{}}}", n, ok);
}

static CUR: AtomicU64 = AtomicU64::new(0);

fn main() {
    let limit: u64 = std::env::args().nth(1).map(|s| s.parse().unwrap()).unwrap_or(20);
    std::panic::set_hook(Box::new(|_| {}));
    // watchdog: exit code 99 when one request runs for more than `limit` seconds
    std::thread::spawn(move || {
        let mut last = (0, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let c = CUR.load(Ordering::SeqCst);
            if c != last.0 {
                last = (c, std::time::Instant::now());
            } else if c % 2 == 1 && last.1.elapsed().as_secs() >= limit {
                std::process::exit(99);
            }
        }
    });
    // the calls run on a stack of the size Rust gives to a thread
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(serve).unwrap();
    t.join().unwrap();
}

fn serve() {
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut w = stdout.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split(' ').collect();
        let (id, op) = (f[0], f[1]);
        let args = &f[2..f.len() - 1];
        let h = f[f.len() - 1];
        // an exact-size allocation per request: reads outside the input are reads outside the heap block
        let input = hexb(if h == "." { "" } else { h }).into_boxed_slice();
        let mut out = String::new();
        CUR.fetch_add(1, Ordering::SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut s = String::new();
            exec(&mut s, op, args, &input);
            s
        }));
        CUR.fetch_add(1, Ordering::SeqCst);
        match r {
            Ok(s) => out.push_str(&s),
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if m.starts_with("unknown ") || m.starts_with("bad ") || m.ends_with(" expected") || m.starts_with("expression does") {
                    eprintln!("harness: {} in request {}", m, line);
                    std::process::exit(98);
                }
                let m: String = m.chars().filter(|c| c.is_ascii_graphic() || *c == ' ').filter(|c| *c != '"' && *c != '\\').take(120).collect();
                let _ = write!(out, "{{\"s\":\"panic\",\"e\":\"{}\"}}", m);
            }
        }
        let _ = writeln!(w, "{}\t{}", id, out);
        let _ = w.flush();
    }
}

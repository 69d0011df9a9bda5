//! Parsers supplied by the user of the combinators: callbacks that record how they are called,
//! keep state between calls, and fail with errors of a type of their own.
use crate::expr::*;
use crate::proj::*;
use der_parser::ber::*;
use der_parser::der::*;
use der_parser::error::BerError;
use nom::error::{ErrorKind, ParseError};
use nom::{Err, IResult, Needed};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::rc::Rc;

/// what the user's parsers saw
pub struct Log {
    base: Base,
    ev: Vec<Vec<i64>>,
}
pub type L = Rc<RefCell<Log>>;

/// an error type that is not the library's
#[derive(Debug)]
pub enum Mine {
    Lib(BerError),
    Nom(ErrorKind),
    User(i64),
}
impl From<BerError> for Mine {
    fn from(e: BerError) -> Mine {
        match user_code(&e) {
            Some(n) => Mine::User(n),
            None => Mine::Lib(e),
        }
    }
}
impl<'a> ParseError<&'a [u8]> for Mine {
    fn from_error_kind(_: &'a [u8], kind: ErrorKind) -> Mine {
        Mine::Nom(kind)
    }
    fn append(_: &'a [u8], _: ErrorKind, other: Mine) -> Mine {
        other
    }
}

fn user_code(e: &BerError) -> Option<i64> {
    match e {
        BerError::InvalidValue { msg, .. } => msg.strip_prefix("user ").and_then(|n| n.parse().ok()),
        _ => None,
    }
}

pub trait Er<'a>: ParseError<&'a [u8]> + From<BerError> + 'a {
    fn user(n: i64) -> Self;
    fn name(&self) -> String;
}
impl<'a> Er<'a> for BerError {
    fn user(n: i64) -> BerError {
        BerError::InvalidValue { tag: Tag(99), msg: format!("user {}", n) }
    }
    fn name(&self) -> String {
        match user_code(self) {
            Some(n) => format!("user{}", n),
            None => ekind(self),
        }
    }
}
impl<'a> Er<'a> for Mine {
    fn user(n: i64) -> Mine {
        Mine::User(n)
    }
    fn name(&self) -> String {
        match self {
            Mine::Lib(e) => ekind(e),
            Mine::Nom(_) => "NomError".into(),
            Mine::User(n) => format!("user{}", n),
        }
    }
}

type Pr<'a, E> = Box<dyn FnMut(&'a [u8]) -> IResult<&'a [u8], V<'a>, E> + 'a>;

fn up<'a, T, E: Er<'a>>(r: IResult<&'a [u8], T, BerError>) -> IResult<&'a [u8], T, E> {
    r.map_err(|e| match e {
        Err::Incomplete(n) => Err::Incomplete(n),
        Err::Error(e) => Err::Error(e.into()),
        Err::Failure(e) => Err::Failure(e.into()),
    })
}

fn vobj<'a, E>(r: IResult<&'a [u8], V<'a>, E>) -> IResult<&'a [u8], BerObject<'a>, E> {
    match r? {
        (rem, V::Obj(o)) => Ok((rem, o)),
        _ => panic!("expression does not yield an object"),
    }
}

fn note(log: &L, label: i64, i: &[u8], h: Option<&Header>, depth: i64) {
    let mut l = log.borrow_mut();
    let mut e = vec![label, l.base.off(i), i.len() as i64];
    if let Some(h) = h {
        e.extend([h.class() as i64, h.constructed() as i64]);
        e.extend(h.tag().0.to_be_bytes().iter().map(|b| *b as i64));
        e.push(lenv(h.length()));
        e.extend(h.raw_tag().unwrap_or(&[]).iter().map(|b| *b as i64));
        e.push(depth);
    }
    l.ev.push(e);
}

/// every parser of a list in turn
fn all<'a, E: Er<'a>>(ps: &RefCell<Vec<Pr<'a, E>>>, i: &'a [u8]) -> IResult<&'a [u8], Vec<V<'a>>, E> {
    let mut i = i;
    let mut l = vec![];
    for p in ps.borrow_mut().iter_mut() {
        let (r, v) = p(i)?;
        l.push(v);
        i = r;
    }
    Ok((i, l))
}

/// the parser an expression stands for; the objects the library returns are kept and used again
pub fn mk<'a, E: Er<'a>>(e: &Ex, der: bool, log: &L) -> Pr<'a, E> {
    let (name, a) = match e {
        Ex::Node(n, a) => (n.as_str(), a),
        _ => panic!("bad expression"),
    };
    let log = log.clone();
    let many = |k: usize, log: &L| RefCell::new(a[k..].iter().map(|x| mk::<E>(x, der, log)).collect::<Vec<_>>());
    let own = |k: usize| RefCell::new(mk::<BerError>(&a[k], der, &log));
    match name {
        // user parsers: take(label, n), fail(label, how, code), count(label, n, calls, code)
        "utake" => {
            let (id, n) = (a[0].int(), a[1].int() as usize);
            Box::new(move |i: &'a [u8]| {
                if i.is_empty() {
                    return Err(Err::Incomplete(Needed::new(n)));
                }
                note(&log, id, i, None, 0);
                if i.len() < n {
                    return Err(Err::Incomplete(Needed::new(n - i.len())));
                }
                Ok((&i[n..], V::Slice(&i[..n])))
            })
        }
        "ufail" => {
            let (id, code) = (a[0].int(), a[2].int());
            let how = match &a[1] {
                Ex::Node(n, _) => n.clone(),
                _ => panic!("how"),
            };
            Box::new(move |i: &'a [u8]| {
                if i.is_empty() {
                    return Err(Err::Incomplete(Needed::Unknown));
                }
                note(&log, id, i, None, 0);
                Err(match how.as_str() {
                    "err" => Err::Error(E::user(code)),
                    "fail" => Err::Failure(E::user(code)),
                    _ => Err::Incomplete(Needed::Unknown),
                })
            })
        }
        "ucount" => {
            let (id, n, calls, code) = (a[0].int(), a[1].int() as usize, a[2].int(), a[3].int());
            let mut done = 0;
            Box::new(move |i: &'a [u8]| {
                if i.is_empty() {
                    return Err(Err::Incomplete(Needed::Unknown));
                }
                note(&log, id, i, None, 0);
                if done >= calls {
                    return Err(Err::Error(E::user(code)));
                }
                done += 1;
                if i.len() < n {
                    return Err(Err::Incomplete(Needed::new(n - i.len())));
                }
                Ok((&i[n..], V::Slice(&i[..n])))
            })
        }
        // generic combinators
        "seqofv" | "setofv" => {
            let seq = name == "seqofv";
            let p = mk::<E>(&a[0], der, &log);
            let mut q: Box<dyn FnMut(&'a [u8]) -> IResult<&'a [u8], Vec<V<'a>>, E> + 'a> = match (der, seq) {
                (false, true) => Box::new(parse_ber_sequence_of_v(p)),
                (false, false) => Box::new(parse_ber_set_of_v(p)),
                (true, true) => Box::new(parse_der_sequence_of_v(p)),
                (true, false) => Box::new(parse_der_set_of_v(p)),
            };
            Box::new(move |i| q(i).map(|(r, l)| (r, V::Group(seq, l))))
        }
        "seqdefg" | "setdefg" | "cont" => {
            let id = a[0].int();
            let ps = many(1, &log);
            let f = move |j: &'a [u8], h: Header<'a>| {
                note(&log, id, j, Some(&h), 0);
                let (r, l) = all(&ps, j)?;
                Ok((r, V::Hdr(h, l)))
            };
            match (der, name) {
                (false, "seqdefg") => Box::new(parse_ber_sequence_defined_g(f)),
                (false, "setdefg") => Box::new(parse_ber_set_defined_g(f)),
                (false, _) => Box::new(parse_ber_container(f)),
                (true, "seqdefg") => Box::new(parse_der_sequence_defined_g(f)),
                (true, "setdefg") => Box::new(parse_der_set_defined_g(f)),
                (true, _) => Box::new(parse_der_container(f)),
            }
        }
        "explg" => {
            let (id, tag) = (a[0].int(), a[1].tag());
            let ps = many(2, &log);
            let f = move |j: &'a [u8], h: Header<'a>| {
                note(&log, id, j, Some(&h), 0);
                let (r, l) = all(&ps, j)?;
                Ok((r, V::Hdr(h, l)))
            };
            if der { Box::new(parse_der_tagged_explicit_g(tag, f)) } else { Box::new(parse_ber_tagged_explicit_g(tag, f)) }
        }
        "implg" => {
            let (id, tag) = (a[0].int(), a[1].tag());
            let ps = many(2, &log);
            let f = move |j: &'a [u8], h: Header<'a>, d: usize| {
                note(&log, id, j, Some(&h), d as i64);
                let (r, l) = all(&ps, j)?;
                Ok((r, V::Hdr(h, l)))
            };
            if der { Box::new(parse_der_tagged_implicit_g(tag, f)) } else { Box::new(parse_ber_tagged_implicit_g(tag, f)) }
        }
        // combinators over the library's own error type
        "seqof" | "setof" => {
            let p = own(0);
            let f = move |j: &'a [u8]| vobj((p.borrow_mut())(j));
            let mut q: Box<dyn FnMut(&'a [u8]) -> IResult<&'a [u8], BerObject<'a>, BerError> + 'a> = match (der, name) {
                (false, "seqof") => Box::new(parse_ber_sequence_of(f)),
                (false, _) => Box::new(parse_ber_set_of(f)),
                (true, "seqof") => Box::new(parse_der_sequence_of(f)),
                (true, _) => Box::new(parse_der_set_of(f)),
            };
            Box::new(move |i| up(q(i).map(|(r, o)| (r, V::Obj(o)))))
        }
        "seqdef" | "setdef" => {
            let ps = RefCell::new(a.iter().map(|x| mk::<BerError>(x, der, &log)).collect::<Vec<_>>());
            let f = move |j: &'a [u8]| {
                let (r, l) = all(&ps, j)?;
                let l = l.into_iter().map(|v| match v {
                    V::Obj(o) => o,
                    _ => panic!("expression does not yield an object"),
                });
                Ok((r, l.collect()))
            };
            let mut q: Box<dyn FnMut(&'a [u8]) -> IResult<&'a [u8], BerObject<'a>, BerError> + 'a> = match (der, name) {
                (false, "seqdef") => Box::new(parse_ber_sequence_defined(f)),
                (false, _) => Box::new(parse_ber_set_defined(f)),
                (true, "seqdef") => Box::new(parse_der_sequence_defined(f)),
                (true, _) => Box::new(parse_der_set_defined(f)),
            };
            Box::new(move |i| up(q(i).map(|(r, o)| (r, V::Obj(o)))))
        }
        "expl" => {
            let p = own(1);
            let tag = a[0].tag();
            let f = move |j: &'a [u8]| vobj((p.borrow_mut())(j));
            let mut q: Box<dyn FnMut(&'a [u8]) -> IResult<&'a [u8], BerObject<'a>, BerError> + 'a> =
                if der { Box::new(parse_der_tagged_explicit(tag, f)) } else { Box::new(parse_ber_tagged_explicit(tag, f)) };
            Box::new(move |i| up(q(i).map(|(r, o)| (r, V::Obj(o)))))
        }
        "opt" => {
            let mut p = mk::<BerError>(&a[0], der, &log);
            let mut q = parse_ber_optional(move |j: &'a [u8]| vobj(p(j)));
            Box::new(move |i| up(q(i).map(|(r, o)| (r, V::Obj(o)))))
        }
        // note(label, parser): a library parser called through the user's code
        "note" => {
            let id = a[0].int();
            let mut p = mk::<E>(&a[1], der, &log);
            Box::new(move |i: &'a [u8]| {
                if !i.is_empty() {
                    note(&log, id, i, None, 0);
                }
                p(i)
            })
        }
        _ => {
            let e = e.clone();
            Box::new(move |i| up(run(&e, der, i)))
        }
    }
}

/// apply one parser object again and again to what it leaves, at most `times` times
pub fn session<'a, E: Er<'a>>(out: &mut String, e: &Ex, der: bool, times: usize, i: &'a [u8]) {
    let b = Base::of(i);
    let log: L = Rc::new(RefCell::new(Log { base: b, ev: vec![] }));
    let mut p = mk::<E>(e, der, &log);
    let mut rest = i;
    out.push_str("{\"s\":\"ok\",\"v\":[");
    for n in 0..times {
        if n > 0 {
            out.push(',');
        }
        let r = p(rest);
        match r {
            Ok((rem, v)) => {
                out.push_str("{\"s\":\"ok\",\"v\":");
                v_json(out, &v, b);
                let sfx = rem.len() <= i.len()
                    && (rem.is_empty() || rem.as_ptr() as usize + rem.len() == i.as_ptr() as usize + i.len());
                let nx = i.len() as i64 - rem.len() as i64 + 1;
                let _ = write!(out, ",\"nx\":{},\"sfx\":{},\"log\":{}}}", nx, sfx, log.borrow().ev.len());
                rest = rem;
            }
            Err(e) => {
                let (s, e) = match &e {
                    Err::Incomplete(_) => ("inc", "Incomplete".to_string()),
                    Err::Error(e) => ("err", e.name()),
                    Err::Failure(e) => ("fail", e.name()),
                };
                let _ = write!(out, "{{\"s\":\"{}\",\"e\":\"{}\",\"log\":{}}}", s, e, log.borrow().ev.len());
                break;
            }
        }
    }
    out.push_str("],\"log\":[");
    for (n, e) in log.borrow().ev.iter().enumerate() {
        if n > 0 {
            out.push(',');
        }
        arri(out, e);
    }
    out.push_str("]}");
}

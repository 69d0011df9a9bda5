//! Inputs too long to be written out: a prefix, many copies of a unit, a suffix.  Results are recorded
//! run-length encoded, without loss.
use crate::expr::*;
use crate::proj::*;
use asn1_rs::{Any, FromBer};
use cookie_factory::gen_simple;
use der_parser::ber::*;
use std::convert::TryFrom;
use std::fmt::Write;

/// `b` = head, then `m` copies of the unit, then tail: the head that allows most copies
fn rle(out: &mut String, b: &[u8], unit: &[u8]) {
    let (mut head, mut m) = (b.len(), 0);
    for a in 0..=b.len().min(64) {
        let n = b[a..].chunks_exact(unit.len()).take_while(|c| *c == unit).count();
        if n > m {
            head = a;
            m = n;
        }
        if m >= (b.len() - a) / unit.len() {
            break;
        }
    }
    out.push_str("{\"h\":");
    arr(out, &b[..head.min(4096)]);
    let _ = write!(out, ",\"hn\":{},\"m\":{},\"t\":", head, m);
    let t = &b[head + m * unit.len()..];
    arr(out, &t[..t.len().min(4096)]);
    let _ = write!(out, ",\"tn\":{}}}", t.len());
}

/// runs of values that are the same but for their position, which moves on by one unit
fn runs(out: &mut String, n: usize, unit: &[u8], b: Base, text: impl Fn(&mut String, usize, Base)) {
    let start = out.len();
    out.push('[');
    let mut i = 0;
    while i < n && out.len() - start < 100_000 {
        let mut first = String::new();
        text(&mut first, i, b);
        let mut j = i + 1;
        while j < n {
            let mut t = String::new();
            let d = (j - i) * unit.len();
            text(&mut t, j, Base { p: b.p + d, n: b.n.saturating_sub(d), ..b });
            if t != first {
                break;
            }
            j += 1;
        }
        let _ = write!(out, "{}{{\"n\":{},\"v\":{}}}", if i > 0 { "," } else { "" }, j - i, first);
        i = j;
    }
    out.push(']');
}

fn lobj(out: &mut String, x: &BerObject, unit: &[u8], b: Base) {
    let (n, d, o, ch) = parts(&x.content, b);
    out.push('{');
    hdr_fields(out, &x.header);
    let _ = write!(out, ",\"k\":\"{}\",\"n\":", kind(&x.content));
    arri(out, &n);
    out.push_str(",\"d\":");
    rle(out, &d, unit);
    let _ = write!(out, ",\"o\":{},\"ch\":", o);
    runs(out, ch.len(), unit, b, |w, k, b| lobj(w, ch[k], unit, b));
    out.push('}');
}

fn lv(out: &mut String, v: &V, unit: &[u8], b: Base) {
    let group = |out: &mut String, l: &[V]| {
        out.push_str(",\"n\":[],\"d\":");
        rle(out, &[], unit);
        out.push_str(",\"o\":-2,\"ch\":");
        runs(out, l.len(), unit, b, |w, k, b| lv(w, &l[k], unit, b));
        out.push('}');
    };
    match v {
        V::Obj(o) => lobj(out, o, unit, b),
        V::Num(_) => v_json(out, v, b),
        V::Slice(s) => {
            out.push_str("{\"k\":\"slice\",\"d\":");
            rle(out, s, unit);
            let _ = write!(out, ",\"o\":{}}}", b.off(s));
        }
        V::Group(seq, l) => {
            let (t, k) = if *seq { (16, "seq") } else { (17, "set") };
            let _ = write!(out, "{{\"c\":0,\"p\":1,\"t\":[0,0,0,{}],\"len\":0,\"raw\":[],\"k\":\"{}\"", t, k);
            group(out, l);
        }
        V::Hdr(h, l) => {
            out.push('{');
            hdr_fields(out, h);
            out.push_str(",\"k\":\"seq\"");
            group(out, l);
        }
    }
}

struct Count(usize, usize);
impl<'a> Visit<'a> for Count {
    fn visit_ber(&mut self, _: &'_ BerObject<'a>, depth: usize) {
        self.0 += 1;
        self.1 = self.1.max(depth);
    }
}

fn count(o: &BerObject) -> Count {
    let mut r = Count(0, 0);
    let p: *mut BerObject = Box::into_raw(Box::new(o.clone()));
    Visit::run(&mut r, unsafe { &*(p as *const BerObject) });
    drop(unsafe { Box::from_raw(p) });
    r
}

pub fn long(out: &mut String, e: &Ex, der: bool, n: usize, unit: &[u8], suf: &[u8], pre: &[u8]) {
    let mut x = Vec::with_capacity(pre.len() + n * unit.len() + suf.len());
    x.extend_from_slice(pre);
    for _ in 0..n {
        x.extend_from_slice(unit);
    }
    x.extend_from_slice(suf);
    let i = &x[..];
    let b = Base::of(i);
    presult(out, i, run(e, der, i), |w, v| {
        lv(w, v, unit, b);
        if let V::Obj(o) = v {
            more(w, o, i, unit, b);
        }
    });
}

/// the serializer, visitors, iterators and the conversion on the same object
fn more(w: &mut String, o: &BerObject, i: &[u8], unit: &[u8], b: Base) {
    let (t, c) = (Tag(2), Class::ContextSpecific);
    let outs = [
        o.to_vec(),
        gen_simple(ber_encode_object(o), Vec::new()),
        gen_simple(ber_encode_tagged_explicit(t, c, o), Vec::new()),
        gen_simple(ber_encode_tagged_implicit(t, c, o), Vec::new()),
    ];
    w.push_str(",\"enc\":[");
    for (k, r) in outs.iter().enumerate() {
        w.push_str(if k > 0 { "," } else { "" });
        match r {
            Ok(r) => rle(w, r, unit),
            Err(_) => w.push_str("[]"),
        }
    }
    w.push_str("],\"back\":");
    match &outs[0] {
        Ok(r) => match parse_ber(r) {
            Ok((rem, x)) => {
                let _ = write!(w, "[{},{},{}]", rem.len(), (x == *o) as u8, (x.content == o.content) as u8);
            }
            Err(_) => w.push_str("[-1,0,0]"),
        },
        Err(_) => w.push_str("[-2,0,0]"),
    }
    let c = count(o);
    let it = o.ref_iter().count();
    let into = o.clone().into_iter().count();
    let last = it == 0 || o.ref_iter().last().map(|p| p as *const BerObject) == Some(&o[it - 1] as *const BerObject);
    let _ = write!(w, ",\"walk\":[{},{}],\"iter\":[{},{}],\"last\":{},\"clone\":{},\"conv\":[", c.0, c.1, it, into, last, o.clone() == *o);
    if let Ok((_, a)) = Any::from_ber(i) {
        if let Ok(o) = BerObject::try_from(&a) {
            lobj(w, &o, unit, b);
        }
        if let Ok(o) = BerObject::try_from(a) {
            w.push(',');
            lobj(w, &o, unit, b);
        }
    }
    w.push(']');
}

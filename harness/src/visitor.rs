//! Recording visitors
use crate::proj::*;
use asn1_rs::{ASN1DateTime, Any};
use der_parser::ber::*;
use der_parser::oid::Oid;

#[derive(Default)]
pub struct Rec {
    pub out: String,
    pub n: usize,
    pub mutate: bool,
}

impl Rec {
    fn ev(&mut self, name: &str, depth: usize, a: &[i64]) {
        if self.n > 0 {
            self.out.push(',');
        }
        self.n += 1;
        self.out.push_str(&format!("{{\"e\":\"{}\",\"dp\":{},\"a\":", name, depth));
        arri(&mut self.out, a);
        self.out.push('}');
    }
    fn b(&mut self, name: &str, depth: usize, s: &[u8]) {
        let v: Vec<i64> = s.iter().map(|x| *x as i64).collect();
        self.ev(name, depth, &v)
    }
    fn head(&mut self, o: &BerObject, depth: usize) {
        let mut v = vec![o.header.class() as u8 as i64, o.header.constructed() as i64];
        v.extend(o.header.tag().0.to_be_bytes().iter().map(|x| *x as i64));
        self.ev("ber", depth, &v)
    }
    fn bits(&mut self, ignored: u8, data: &[u8], depth: usize) {
        let mut v = vec![ignored as i64];
        v.extend(data.iter().map(|x| *x as i64));
        self.ev("bitstring", depth, &v)
    }
    fn tagged(&mut self, class: Class, tag: Tag, depth: usize) {
        let mut v = vec![class as u8 as i64];
        v.extend(tag.0.to_be_bytes().iter().map(|x| *x as i64));
        self.ev("tagged", depth, &v)
    }
}

impl<'a> Visit<'a> for Rec {
    fn visit_ber(&mut self, ber: &'_ BerObject<'a>, depth: usize) { self.head(ber, depth) }
    fn visit_ber_bitstring(&mut self, ignored: u8, data: &'a BitStringObject, depth: usize) { self.bits(ignored, data.data, depth) }
    fn visit_ber_bmpstring(&mut self, s: &'a [u8], depth: usize) { self.b("bmpstring", depth, s) }
    fn visit_ber_boolean(&mut self, b: bool, depth: usize) { self.ev("boolean", depth, &[b as i64]) }
    fn visit_ber_endofcontent(&mut self, depth: usize) { self.ev("endofcontent", depth, &[]) }
    fn visit_ber_enum(&mut self, e: u64, depth: usize) { self.b("enum", depth, trim(&e.to_be_bytes())) }
    fn visit_ber_generalstring(&mut self, s: &'a str, depth: usize) { self.b("generalstring", depth, s.as_bytes()) }
    fn visit_ber_generalizedtime(&mut self, t: &'a ASN1DateTime, depth: usize) { self.ev("generalizedtime", depth, &time(t)) }
    fn visit_ber_graphicstring(&mut self, s: &'a str, depth: usize) { self.b("graphicstring", depth, s.as_bytes()) }
    fn visit_ber_ia5string(&mut self, s: &'a str, depth: usize) { self.b("ia5string", depth, s.as_bytes()) }
    fn visit_ber_integer(&mut self, raw_bytes: &'a [u8], depth: usize) { self.b("integer", depth, raw_bytes) }
    fn visit_ber_null(&mut self, depth: usize) { self.ev("null", depth, &[]) }
    fn visit_ber_numericstring(&mut self, s: &'a str, depth: usize) { self.b("numericstring", depth, s.as_bytes()) }
    fn visit_ber_oid(&mut self, oid: &'a Oid, depth: usize) { self.b("oid", depth, oid.as_bytes()) }
    fn visit_ber_objectdescriptor(&mut self, s: &'a str, depth: usize) { self.b("objectdescriptor", depth, s.as_bytes()) }
    fn visit_ber_octetstring(&mut self, b: &'a [u8], depth: usize) { self.b("octetstring", depth, b) }
    fn visit_ber_optional(&mut self, obj: Option<&'a BerObject<'a>>, depth: usize) { self.ev("optional", depth, &[obj.is_some() as i64]) }
    fn visit_ber_printablestring(&mut self, s: &'a str, depth: usize) { self.b("printablestring", depth, s.as_bytes()) }
    fn visit_ber_relative_oid(&mut self, oid: &'a Oid, depth: usize) { self.b("relative_oid", depth, oid.as_bytes()) }
    fn visit_ber_sequence(&mut self, ber: &'_ [BerObject<'a>], depth: usize) { self.ev("sequence", depth, &[ber.len() as i64]) }
    fn visit_ber_set(&mut self, ber: &'_ [BerObject<'a>], depth: usize) { self.ev("set", depth, &[ber.len() as i64]) }
    fn visit_ber_teletexstring(&mut self, s: &'a str, depth: usize) { self.b("teletexstring", depth, s.as_bytes()) }
    fn visit_ber_tagged(&mut self, class: Class, tag: Tag, _obj: &'_ BerObject<'a>, depth: usize) { self.tagged(class, tag, depth) }
    fn visit_ber_utctime(&mut self, t: &'a ASN1DateTime, depth: usize) { self.ev("utctime", depth, &time(t)) }
    fn visit_ber_utf8string(&mut self, s: &'a str, depth: usize) { self.b("utf8string", depth, s.as_bytes()) }
    fn visit_ber_universalstring(&mut self, raw_bytes: &'a [u8], depth: usize) { self.b("universalstring", depth, raw_bytes) }
    fn visit_ber_videotextstring(&mut self, raw_bytes: &'a str, depth: usize) { self.b("videotextstring", depth, raw_bytes.as_bytes()) }
    fn visit_ber_visiblestring(&mut self, raw_bytes: &'a str, depth: usize) { self.b("visiblestring", depth, raw_bytes.as_bytes()) }
    fn visit_ber_unknown(&mut self, ber: &'_ Any<'a>, depth: usize) { self.b("unknown", depth, ber.data) }
}

/// the same recorder for the mutable traversal; with `mutate`, booleans are flipped and
/// integers replaced by 42
impl<'a> VisitMut<'a> for Rec {
    fn visit_ber_mut(&mut self, ber: &'_ mut BerObject<'a>, depth: usize) { self.head(ber, depth) }
    fn visit_ber_bitstring_mut(&mut self, ignored: &'_ mut u8, data: &'a mut BitStringObject, depth: usize) { self.bits(*ignored, data.data, depth) }
    fn visit_ber_bmpstring_mut(&mut self, s: &'a mut &'_ [u8], depth: usize) { self.b("bmpstring", depth, s) }
    fn visit_ber_boolean_mut(&mut self, b: &'a mut bool, depth: usize) {
        self.ev("boolean", depth, &[*b as i64]);
        if self.mutate { *b = !*b; }
    }
    fn visit_ber_endofcontent_mut(&mut self, depth: usize) { self.ev("endofcontent", depth, &[]) }
    fn visit_ber_enum_mut(&mut self, e: &'a mut u64, depth: usize) { self.b("enum", depth, trim(&e.to_be_bytes())) }
    fn visit_ber_generalstring_mut(&mut self, s: &'a mut &'_ str, depth: usize) { self.b("generalstring", depth, s.as_bytes()) }
    fn visit_ber_generalizedtime_mut(&mut self, t: &'a ASN1DateTime, depth: usize) { self.ev("generalizedtime", depth, &time(t)) }
    fn visit_ber_graphicstring_mut(&mut self, s: &'a mut &'_ str, depth: usize) { self.b("graphicstring", depth, s.as_bytes()) }
    fn visit_ber_ia5string_mut(&mut self, s: &'a mut &'_ str, depth: usize) { self.b("ia5string", depth, s.as_bytes()) }
    fn visit_ber_integer_mut(&mut self, raw_bytes: &'a mut &'_ [u8], depth: usize) {
        self.b("integer", depth, raw_bytes);
        if self.mutate { *raw_bytes = &[42]; }
    }
    fn visit_ber_null_mut(&mut self, depth: usize) { self.ev("null", depth, &[]) }
    fn visit_ber_numericstring_mut(&mut self, s: &'a mut &'_ str, depth: usize) { self.b("numericstring", depth, s.as_bytes()) }
    fn visit_ber_oid_mut(&mut self, oid: &'a mut Oid, depth: usize) { self.b("oid", depth, oid.as_bytes()) }
    fn visit_ber_objectdescriptor_mut(&mut self, s: &'a mut &'_ str, depth: usize) { self.b("objectdescriptor", depth, s.as_bytes()) }
    fn visit_ber_octetstring_mut(&mut self, b: &'a [u8], depth: usize) { self.b("octetstring", depth, b) }
    fn visit_ber_optional_mut(&mut self, obj: Option<&'a mut BerObject<'a>>, depth: usize) { self.ev("optional", depth, &[obj.is_some() as i64]) }
    fn visit_ber_printablestring_mut(&mut self, s: &'a mut &'_ str, depth: usize) { self.b("printablestring", depth, s.as_bytes()) }
    fn visit_ber_relative_oid_mut(&mut self, oid: &'a mut Oid, depth: usize) { self.b("relative_oid", depth, oid.as_bytes()) }
    fn visit_ber_sequence_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, depth: usize) { self.ev("sequence", depth, &[l.len() as i64]) }
    fn visit_ber_set_mut(&mut self, l: &'_ mut Vec<BerObject<'a>>, depth: usize) { self.ev("set", depth, &[l.len() as i64]) }
    fn visit_ber_teletexstring_mut(&mut self, s: &'a mut &'_ str, depth: usize) { self.b("teletexstring", depth, s.as_bytes()) }
    fn visit_ber_tagged_mut(&mut self, class: &'a mut Class, tag: &'a mut Tag, _obj: &'a mut BerObject, depth: usize) { self.tagged(*class, *tag, depth) }
    fn visit_ber_utctime_mut(&mut self, t: &'a ASN1DateTime, depth: usize) { self.ev("utctime", depth, &time(t)) }
    fn visit_ber_utf8string_mut(&mut self, s: &'a str, depth: usize) { self.b("utf8string", depth, s.as_bytes()) }
    fn visit_ber_universalstring_mut(&mut self, raw_bytes: &'a mut &'_ [u8], depth: usize) { self.b("universalstring", depth, raw_bytes) }
    fn visit_ber_videotextstring_mut(&mut self, raw_bytes: &'a mut &'_ str, depth: usize) { self.b("videotextstring", depth, raw_bytes.as_bytes()) }
    fn visit_ber_visiblestring_mut(&mut self, raw_bytes: &'a mut &'_ str, depth: usize) { self.b("visiblestring", depth, raw_bytes.as_bytes()) }
    fn visit_ber_unknown_mut(&mut self, ber: &'_ mut Any<'a>, depth: usize) { self.b("unknown", depth, ber.data) }
}

// Builds the procedural macro from /repo; the invocations themselves are generated and compiled by
// tools/oid.py.
fn main() {
    println!("{:?}", der_oid_macro::encode_oid!(1.2.840));
}

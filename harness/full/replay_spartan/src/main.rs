#![allow(unused)]
fn main() {
    libspartan::rvc_roots::serve(|m, op, a| match m {
        "ml" => libspartan::rvc_roots::ml(op, a),
        "r1cs" => libspartan::rvc_roots::r1cs(op, a),
        "pr" => libspartan::rvc_roots::pr(op, a),
        _ => None,
    })
}

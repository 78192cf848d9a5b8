#![allow(unused)]
fn main() {
    secq256k1::rvc_roots::serve(|m, op, a| match m {
        "fp" => secq256k1::rvc_roots::rfp::run(op, a),
        "fq" => secq256k1::rvc_roots::rfq::run(op, a),
        "sc" => secq256k1::rvc_roots::rsc::run(op, a),
        "gp" => secq256k1::rvc_roots::gp::run(op, a),
        "ps" => poseidon::rvc_roots::run(op, a),
        _ => None,
    })
}

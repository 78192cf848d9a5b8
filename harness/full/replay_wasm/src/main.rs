#![allow(unused)]
fn main() {
    libspartan::rvc_roots::serve(|m, op, a| match m {
        "cr" => circuit_reader::rvc_roots::run(op, a),
        "wa" => spartan_wasm::rvc_roots::run(op, a),
        _ => None,
    })
}

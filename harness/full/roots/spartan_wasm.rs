// Appended (as a module) to the mechanically derived copy of /repo/packages/spartan_wasm/src/lib.rs.
use crate::wasm;
use libspartan::Instance;
pub type F1 = wasm::F1;
pub fn witness(b: &[u8]) -> Result<Vec<F1>, std::io::Error> { wasm::load_witness_from_bin_reader::<F1, &[u8]>(b) }
pub fn prove(c: &[u8], v: &[u8], p: &[u8]) -> Result<Vec<u8>, wasm_bindgen::JsValue> { wasm::prove(c, v, p) }
pub fn verify(c: &[u8], q: &[u8], p: &[u8]) -> Result<bool, wasm_bindgen::JsValue> { wasm::verify(c, q, p) }
pub fn poseidon(b: &[u8]) -> Result<Vec<u8>, wasm_bindgen::JsValue> { wasm::poseidon(b) }
fn unhex(s: &str) -> Vec<u8> { let s = s.trim_start_matches('x'); (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn mx(s: &str) -> Vec<(usize, usize, [u8; 32])> { if s == "-" { return vec![]; } s.split(',').map(|e| { let t: Vec<&str> = e.split(':').collect(); (t[0].parse().unwrap(), t[1].parse().unwrap(), unhex(t[2]).try_into().unwrap()) }).collect() }
pub fn run(op: &str, a: &[&str]) -> Option<String> {
    use ff::PrimeField;
    Some(match op {
        "wt" => match witness(&unhex(a[0])) { Ok(v) => format!("ok {}", v.iter().map(|x| hex(&x.to_repr())).collect::<Vec<_>>().join(",")), Err(_) => "ERR".into() },
        "pos" => hex(&poseidon(&unhex(a[0])).unwrap()),
        // constraints, variables, inputs, A, B, C, witness file, public inputs given to the prover, and to the verifier
        "pv" => {
            let n = |s: &str| s.parse::<usize>().unwrap();
            let i = match Instance::new(n(a[0]), n(a[1]), n(a[2]), &mx(a[3]), &mx(a[4]), &mx(a[5])) { Ok(i) => i, Err(e) => return Some(format!("{:?}", e)) };
            let c = bincode::serialize(&i).unwrap();
            let (w, x, y) = (unhex(a[6]), unhex(a[7]), unhex(a[8]));
            let p = match std::panic::catch_unwind(|| prove(&c, &w, &x).unwrap()) { Ok(p) => p, Err(_) => return Some("0".into()) };
            match std::panic::catch_unwind(|| verify(&c, &p, &y).unwrap()) { Ok(true) => "1".into(), _ => "0".into() }
        }
        _ => return None,
    })
}

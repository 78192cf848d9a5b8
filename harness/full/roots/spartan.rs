// entry points of the verification harness into libspartan (generic instances and concrete replay)
#![allow(missing_docs)]
use crate::dense_mlpoly::*; use crate::unipoly::*; use crate::scalar::Scalar; use crate::sparse_mlpoly::*;
pub fn merge(v: &[DensePolynomial]) -> DensePolynomial { DensePolynomial::merge(v.iter()) }
pub fn uni_roundtrip(p: &UniPoly) -> UniPoly { let h = p.eval_at_zero() + p.eval_at_one(); p.compress().decompress(&h) }
// honest prover followed by the verifier, over equal transcripts
use crate::nizk::*; use crate::commitments::*; use crate::random::RandomTape; use crate::group::CompressedGroup; use crate::errors::ProofVerifyError; use merlin::Transcript;
type V = Result<(), ProofVerifyError>;
pub fn knowledge_pv(g: &MultiCommitGens, t: &mut Transcript, u: &mut Transcript, r: &mut RandomTape, x: &Scalar, b: &Scalar) -> (KnowledgeProof, CompressedGroup, V) {
    let (p, c) = KnowledgeProof::prove(g, t, r, x, b); let v = p.verify(g, u, &c); (p, c, v) }
pub fn equality_pv(g: &MultiCommitGens, t: &mut Transcript, u: &mut Transcript, r: &mut RandomTape, v1: &Scalar, s1: &Scalar, v2: &Scalar, s2: &Scalar) -> (EqualityProof, CompressedGroup, CompressedGroup, V) {
    let (p, a, b) = EqualityProof::prove(g, t, r, v1, s1, v2, s2); let v = p.verify(g, u, &a, &b); (p, a, b, v) }
pub fn product_pv(g: &MultiCommitGens, t: &mut Transcript, u: &mut Transcript, r: &mut RandomTape, x: &Scalar, rx: &Scalar, y: &Scalar, ry: &Scalar, z: &Scalar, rz: &Scalar) -> (ProductProof, CompressedGroup, CompressedGroup, CompressedGroup, V) {
    let (p, a, b, c) = ProductProof::prove(g, t, r, x, rx, y, ry, z, rz); let v = p.verify(g, u, &a, &b, &c); (p, a, b, c, v) }
pub fn dotproduct_pv(g1: &MultiCommitGens, gn: &MultiCommitGens, t: &mut Transcript, u: &mut Transcript, r: &mut RandomTape, x: &[Scalar], bx: &Scalar, a: &[Scalar], y: &Scalar, by: &Scalar) -> (DotProductProof, CompressedGroup, CompressedGroup, V) {
    let (p, cx, cy) = DotProductProof::prove(g1, gn, t, r, x, bx, a, y, by); let v = p.verify(g1, gn, u, a, &cx, &cy); (p, cx, cy, v) }
pub fn dplog_pv(g: &DotProductProofGens, t: &mut Transcript, u: &mut Transcript, r: &mut RandomTape, x: &[Scalar], bx: &Scalar, a: &[Scalar], y: &Scalar, by: &Scalar) -> (DotProductProofLog, CompressedGroup, CompressedGroup, V) {
    let (p, cx, cy) = DotProductProofLog::prove(g, t, r, x, bx, a, y, by); let v = p.verify(x.len(), g, u, a, &cx, &cy); (p, cx, cy, v) }
pub fn polyeval_pv(g: &PolyCommitmentGens, t: &mut Transcript, u: &mut Transcript, r: &mut RandomTape, z: &DensePolynomial, b: Option<&PolyCommitmentBlinds>, at: &[Scalar], zr: &Scalar, bzr: Option<&Scalar>, comm: &PolyCommitment) -> (PolyEvalProof, CompressedGroup, V) {
    let (p, c) = PolyEvalProof::prove(z, b, at, zr, bzr, g, t, r); let v = p.verify(g, u, at, &c, comm); (p, c, v) }
pub fn polycommit_append(c: &PolyCommitment, t: &mut Transcript) { use crate::transcript::AppendToTranscript; c.append_to_transcript(b"c", t) }
use crate::sumcheck::*; 
type Fin = (Vec<Scalar>, Vec<Scalar>);
pub fn sc_cubic_pv(claim: &Scalar, k: usize, a: &mut DensePolynomial, b: &mut DensePolynomial, c: &mut DensePolynomial, t: &mut Transcript, u: &mut Transcript) -> (Fin, Result<(Scalar, Vec<Scalar>), ProofVerifyError>) {
    let (p, r, f) = SumcheckInstanceProof::prove_cubic(claim, k, a, b, c, |x: &Scalar, y: &Scalar, z: &Scalar| x * y * z, t); let v = p.verify(*claim, k, 3, u); ((r, f), v) }
pub fn sc_batched_pv(claim: &Scalar, k: usize, ap: &mut Vec<&mut DensePolynomial>, bp: &mut Vec<&mut DensePolynomial>, cp: &mut DensePolynomial, asq: &mut Vec<&mut DensePolynomial>, bsq: &mut Vec<&mut DensePolynomial>, csq: &mut Vec<&mut DensePolynomial>, coeffs: &[Scalar], t: &mut Transcript, u: &mut Transcript)
    -> (Vec<Scalar>, (Vec<Scalar>, Vec<Scalar>, Scalar), (Vec<Scalar>, Vec<Scalar>, Vec<Scalar>), Result<(Scalar, Vec<Scalar>), ProofVerifyError>) {
    let (p, r, f, g) = SumcheckInstanceProof::prove_cubic_batched(claim, k, (ap, bp, cp), (asq, bsq, csq), coeffs, |x: &Scalar, y: &Scalar, z: &Scalar| x * y * z, t); let v = p.verify(*claim, k, 3, u); (r, f, g, v) }
type ZV = Result<(CompressedGroup, Vec<Scalar>), ProofVerifyError>;
pub fn zk_quad_pv(claim: &Scalar, bl: &Scalar, k: usize, a: &mut DensePolynomial, b: &mut DensePolynomial, g1: &MultiCommitGens, gn: &MultiCommitGens, t: &mut Transcript, u: &mut Transcript, r: &mut RandomTape) -> (ZKSumcheckInstanceProof, Fin, Scalar, ZV) {
    let (p, rr, f, be) = ZKSumcheckInstanceProof::prove_quad(claim, bl, k, a, b, |x: &Scalar, y: &Scalar| x * y, g1, gn, t, r); let v = p.verify(&claim.commit(bl, g1).compress(), k, 2, g1, gn, u); (p, (rr, f), be, v) }
pub fn zk_cubic_pv(claim: &Scalar, bl: &Scalar, k: usize, a: &mut DensePolynomial, b: &mut DensePolynomial, c: &mut DensePolynomial, d: &mut DensePolynomial, g1: &MultiCommitGens, gn: &MultiCommitGens, t: &mut Transcript, u: &mut Transcript, r: &mut RandomTape) -> (ZKSumcheckInstanceProof, Fin, Scalar, ZV) {
    let (p, rr, f, be) = ZKSumcheckInstanceProof::prove_cubic_with_additive_term(claim, bl, k, a, b, c, d, |x: &Scalar, y: &Scalar, z: &Scalar, w: &Scalar| x * (y * z - w), g1, gn, t, r); let v = p.verify(&claim.commit(bl, g1).compress(), k, 3, g1, gn, u); (p, (rr, f), be, v) }
use crate::r1csproof::*; use crate::r1csinstance::R1CSInstance;
pub fn r1cs_pv(inst: &R1CSInstance, vars: Vec<Scalar>, input: &[Scalar], g: &R1CSGens, t: &mut Transcript, u: &mut Transcript, r: &mut RandomTape) -> (R1CSProof, Fin, Result<Fin, ProofVerifyError>) {
    let (p, rx, ry) = R1CSProof::prove(inst, vars, input, g, t, r); let e = inst.evaluate(&rx, &ry); let v = p.verify(inst.get_num_vars(), inst.get_num_cons(), input, &e, u, g); (p, (rx, ry), v) }
pub fn nizk_pv(inst: &crate::Instance, vars: crate::VarsAssignment, input: &crate::InputsAssignment, g: &crate::NIZKGens, t: &mut Transcript, u: &mut Transcript) -> (crate::NIZK, V) {
    let p = crate::NIZK::prove(inst, vars, input, g, t); let v = p.verify(inst, input, u, g); (p, v) }
// ---- the sparse matrix evaluation argument
use crate::product_tree::*;
pub fn prod_circuit(z: &DensePolynomial) -> Scalar { ProductCircuit::new(z).evaluate() }
pub fn dotp_circuit(l: DensePolynomial, r: DensePolynomial, w: DensePolynomial) -> (Scalar, Scalar, Scalar) { let mut c = DotProductCircuit::new(l, r, w); let (a, b) = c.split(); (c.evaluate(), a.evaluate(), b.evaluate()) }
pub fn pc_pv(z: &DensePolynomial, len: usize, t: &mut Transcript, u: &mut Transcript) -> (Scalar, Vec<Scalar>, (Scalar, Vec<Scalar>)) {
    let mut c = ProductCircuit::new(z); let e = c.evaluate(); let (p, x, r) = ProductCircuitEvalProof::prove(&mut c, t); let v = p.verify(e, len, u); (x, r, v) }
pub fn pcb_pv(zs: Vec<DensePolynomial>, ds: Vec<(DensePolynomial, DensePolynomial, DensePolynomial)>, len: usize, t: &mut Transcript, u: &mut Transcript) -> (Vec<Scalar>, (Vec<Scalar>, Vec<Scalar>, Vec<Scalar>)) {
    let mut cs: Vec<ProductCircuit> = vec![]; for z in zs.iter() { cs.push(ProductCircuit::new(z)); }
    let mut es: Vec<DotProductCircuit> = vec![]; for (l, r, w) in ds { let (a, b) = DotProductCircuit::new(l, r, w).split(); es.push(a); es.push(b); }
    let mut ev: Vec<Scalar> = vec![]; for c in cs.iter() { ev.push(c.evaluate()); } let mut ed: Vec<Scalar> = vec![]; for c in es.iter() { ed.push(c.evaluate()); }
    let mut cr: Vec<&mut ProductCircuit> = vec![]; for c in cs.iter_mut() { cr.push(c); } let mut er: Vec<&mut DotProductCircuit> = vec![]; for c in es.iter_mut() { er.push(c); }
    let (p, r) = ProductCircuitEvalProofBatched::prove(&mut cr, &mut er, t); let v = p.verify(&ev, &ed, len, u); (r, v) }
pub fn sparse_pv(ms: &[&SparseMatPolynomial], rx: &[Scalar], ry: &[Scalar], g: &SparseMatPolyCommitmentGens, t: &mut Transcript, u: &mut Transcript, r: &mut RandomTape) -> V {
    let e = SparseMatPolynomial::multi_evaluate(ms, rx, ry); let (c, d) = SparseMatPolynomial::multi_commit(ms, g); let p = SparseMatPolyEvalProof::prove(&d, rx, ry, &e, g, t, r); p.verify(&c, rx, ry, &e, g, u) }
pub fn snark_pv(inst: &crate::Instance, vars: crate::VarsAssignment, input: &crate::InputsAssignment, g: &crate::SNARKGens, t: &mut Transcript, u: &mut Transcript) -> (crate::SNARK, V) {
    let (c, d) = crate::SNARK::encode(inst, g); let p = crate::SNARK::prove(inst, &c, &d, vars, input, g, t); let v = p.verify(&c, input, u, g); (p, v) }
pub fn r1cs_comm_append(c: &crate::r1csinstance::R1CSCommitment, t: &mut Transcript) { use crate::transcript::AppendToTranscript; c.append_to_transcript(b"comm", t) }
// ---- concrete side
pub fn unhex(s: &str) -> Vec<u8> { if s == "-" { return vec![]; } (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
pub fn hex(b: &[u8]) -> String { if b.is_empty() { return "-".into(); } b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn fl(s: &str) -> Vec<Scalar> { unhex(s).chunks(32).map(|c| { let mut b = [0u8; 32]; b.copy_from_slice(c); Option::<Scalar>::from(Scalar::from_bytes(&b)).unwrap() }).collect() }
pub fn f1(s: &str) -> Scalar { fl(s)[0] }
pub fn ol(v: &[Scalar]) -> String { hex(&v.iter().flat_map(|x| x.to_bytes().to_vec()).collect::<Vec<u8>>()) }
pub fn o1(x: &Scalar) -> String { hex(&x.to_bytes()) }
fn us(s: &str) -> Vec<usize> { if s == "-" { vec![] } else { s.split(',').map(|x| x.parse().unwrap()).collect() } }
fn dz(p: &DensePolynomial) -> Vec<Scalar> { (0..p.len()).map(|i| p[i]).collect() }
fn dd(p: &DensePolynomial) -> String { format!("{} {} {}", p.get_num_vars(), p.len(), ol(&dz(p))) }
fn up(c: &[Scalar]) -> UniPoly {
    // coefficients -> evaluations -> polynomial is not available for other degrees: go through the compressed form
    let h = c.iter().fold(c[0], |a, b| a + b);
    let _ = h; crate::rvc_roots::raw_uni(c)
}
pub fn raw_uni(c: &[Scalar]) -> UniPoly { bincode::deserialize::<CompressedUniPoly>(&enc_cu(c)).ok().map(|q| { if c.len() == 1 { unreachable!() } let h = c.iter().fold(c[0], |a, b| a + b); q.decompress(&h) }).unwrap() }
fn enc_cu(c: &[Scalar]) -> Vec<u8> { let mut v: Vec<Scalar> = vec![c[0]]; v.extend_from_slice(&c[2..]); bincode::serialize(&v).unwrap() }
pub fn ml(op: &str, a: &[&str]) -> Option<String> {
    Some(match op {
        "eq_evals" => ol(&EqPolynomial::new(fl(a[0])).evals()),
        "eq_factored" => { let (l, r) = EqPolynomial::new(fl(a[0])).compute_factored_evals(); format!("{} {}", ol(&l), ol(&r)) }
        "eq_eval" => o1(&EqPolynomial::new(fl(a[0])).evaluate(&fl(a[1]))),
        "id_eval" => { let r = fl(a[0]); o1(&IdentityPolynomial::new(r.len()).evaluate(&r)) }
        "factored_lens" => { let (x, y) = EqPolynomial::compute_factored_lens(a[0].parse().unwrap()); format!("{} {}", x, y) }
        "dense_new" => dd(&DensePolynomial::new(fl(a[0]))),
        "dense_clone" => dd(&DensePolynomial::new(fl(a[0])).clone()),
        "dense_eval" => o1(&DensePolynomial::new(fl(a[0])).evaluate(&fl(a[1]))),
        "dense_bound" => ol(&DensePolynomial::new(fl(a[0])).bound(&fl(a[1]))),
        "dense_bind_top" => { let mut d = DensePolynomial::new(fl(a[0])); d.bound_poly_var_top(&f1(a[1])); dd(&d) }
        "dense_bind_bot" => { let mut d = DensePolynomial::new(fl(a[0])); d.bound_poly_var_bot(&f1(a[1])); dd(&d) }
        "dense_split" => { let d = DensePolynomial::new(fl(a[0])); let (x, y) = d.split(d.len() / 2); format!("{} {}", ol(&dz(&x)), ol(&dz(&y))) }
        "dense_extend" => { let mut d = DensePolynomial::new(fl(a[0])); d.extend(&DensePolynomial::new(fl(a[1]))); dd(&d) }
        "dense_from_usize" => ol(&dz(&DensePolynomial::from_usize(&us(a[0])))),
        "dense_merge" => { let v: Vec<DensePolynomial> = a.iter().map(|x| DensePolynomial::new(fl(x))).collect(); ol(&dz(&merge(&v))) }
        "dot_dotproductproof" => o1(&crate::nizk::DotProductProof::compute_dotproduct(&fl(a[0]), &fl(a[1]))),
        "dot_dotproductprooflog" => o1(&crate::nizk::DotProductProofLog::compute_dotproduct(&fl(a[0]), &fl(a[1]))),
        "sparse_eval" => { let v = fl(a[1]); let r = fl(a[2]); o1(&SparsePolynomial::new(r.len(), us(a[0]).into_iter().zip(v).map(|(i, x)| SparsePolyEntry::new(i, x)).collect()).evaluate(&r)) }
        "uni_from_evals" => ol(&UniPoly::from_evals(&fl(a[0])).as_vec()),
        _ => {
            if !op.starts_with("uni_") { return None; }
            let c = fl(a[0]);
            if c.len() < 2 { return Some("-SKIP-".into()); }
            let u = up(&c);
            match op {
                "uni_eval" => o1(&u.evaluate(&f1(a[1]))), "uni_eval0" => o1(&u.eval_at_zero()), "uni_eval1" => o1(&u.eval_at_one()),
                "uni_compress" => { let h = u.eval_at_zero() + u.eval_at_one(); ol(&u.compress().decompress(&h).as_vec()) }
                _ => return None }
        }
    })
}
pub fn serve(f: impl Fn(&str, &str, &[&str]) -> Option<String>) {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|e| { if std::env::var("RVC_PANIC").is_ok() { eprintln!("{}", e); } }));
    let (i, o) = (std::io::stdin(), std::io::stdout()); let mut o = o.lock();
    for l in i.lock().lines() {
        let l = l.unwrap(); let t: Vec<&str> = l.split(' ').collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(t[0], t[1], &t[2..]).unwrap_or_else(|| "UNKNOWN".into()))).unwrap_or_else(|_| "PANIC".into());
        writeln!(o, "{}", r).unwrap();
    }
}
fn b32(s: &str) -> Vec<[u8; 32]> { unhex(s).chunks(32).map(|c| { let mut b = [0u8; 32]; b.copy_from_slice(c); b }).collect() }
fn mx(s: &str) -> Vec<(usize, usize, [u8; 32])> { if s == "-" { return vec![]; } s.split(',').map(|e| { let t: Vec<&str> = e.split(':').collect(); (t[0].parse().unwrap(), t[1].parse().unwrap(), b32(t[2])[0]) }).collect() }
fn n(s: &str) -> usize { s.parse().unwrap() }
pub fn r1cs(op: &str, a: &[&str]) -> Option<String> {
    use crate::*;
    Some(match op {
        "assign" => match Assignment::new(&b32(a[0])) { Ok(x) => format!("ok {}", ol(&x.assignment)), Err(e) => format!("{:?}", e) },
        "dims" => { let i = Instance::new(n(a[0]), n(a[1]), n(a[2]), &[], &[], &[]).unwrap(); format!("{} {} {}", i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs()) }
        "inst_sat" => {
            let i = match Instance::new(n(a[0]), n(a[1]), n(a[2]), &mx(a[3]), &mx(a[4]), &mx(a[5])) { Ok(x) => x, Err(e) => return Some(format!("{:?}", e)) };
            let v = match Assignment::new(&b32(a[6])) { Ok(x) => x, Err(e) => return Some(format!("{:?}", e)) };
            let x = match Assignment::new(&b32(a[7])) { Ok(x) => x, Err(e) => return Some(format!("{:?}", e)) };
            match i.is_sat(&v, &x) { Ok(b) => format!("{}", b), Err(e) => format!("{:?}", e) }
        }
        "evaluate" => {
            let sc = |m: Vec<(usize, usize, [u8; 32])>| m.into_iter().map(|(i, j, v)| (i, j, Option::<Scalar>::from(Scalar::from_bytes(&v)).unwrap())).collect::<Vec<_>>();
            let i = crate::r1csinstance::R1CSInstance::new(n(a[0]), n(a[1]), n(a[2]), &sc(mx(a[3])), &sc(mx(a[4])), &sc(mx(a[5])));
            let (x, y, z) = i.evaluate(&fl(a[6]), &fl(a[7])); format!("{} {} {}", o1(&x), o1(&y), o1(&z))
        }
        _ => return None,
    })
}

// ---- points: an encoding as hex
use crate::group::{CompressedGroupExt, DecompressEncodedPoint, GroupElement, VartimeMultiscalarMul};
fn cg(s: &str) -> Option<CompressedGroup> { CompressedGroup::from_bytes(unhex(s)).ok() }
fn opt<T>(r: Option<T>, f: impl Fn(T) -> String) -> String { match r { Some(x) => f(x), None => "none".into() } }
fn gk(s: &str) -> GroupElement { GroupElement::generator() * f1(s) }
fn oc(p: &GroupElement) -> String { hex(p.compress().as_bytes()) }
pub fn pr(op: &str, a: &[&str]) -> Option<String> {
    Some(match op {
        "unpack" => match cg(a[0]) { None => "badenc".into(), Some(c) => opt(c.unpack().ok(), |p| oc(&p)) },
        "decompress" => match cg(a[0]) { None => "badenc".into(), Some(c) => opt(c.decompress(), |p| oc(&p)) },
        "base" => oc(&gk(a[0])),
        // honest proof, serialized, one byte changed when asked to, read back and verified
        "know" => { let v = fl(a[1]); let g = MultiCommitGens::new(1, b"g"); let (p, c) = KnowledgeProof::prove(&g, &mut tn(), &mut rt(), &v[0], &v[1]); chk(&p, a[0], |p| (p.verify(&g, &mut tn(), &c).is_ok())) }
        "equal" => { let v = fl(a[1]); let g = MultiCommitGens::new(1, b"g"); let (p, c, d) = EqualityProof::prove(&g, &mut tn(), &mut rt(), &v[0], &v[1], &v[2], &v[3]); chk(&p, a[0], |p| (p.verify(&g, &mut tn(), &c, &d).is_ok())) }
        "product" => { let v = fl(a[1]); let g = MultiCommitGens::new(1, b"g"); let (p, c, d, e) = ProductProof::prove(&g, &mut tn(), &mut rt(), &v[0], &v[1], &v[2], &v[3], &v[4], &v[5]); chk(&p, a[0], |p| (p.verify(&g, &mut tn(), &c, &d, &e).is_ok())) }
        "dot" => { let (x, y) = (fl(a[1]), fl(a[2])); let v = fl(a[3]); let (g1, gn) = (MultiCommitGens::new(1, b"g"), MultiCommitGens::new(x.len(), b"h")); let (p, c, d) = DotProductProof::prove(&g1, &gn, &mut tn(), &mut rt(), &x, &v[0], &y, &v[1], &v[2]); chk(&p, a[0], |p| (p.verify(&g1, &gn, &mut tn(), &y, &c, &d).is_ok())) }
        "dotlog" => { let (x, y) = (fl(a[1]), fl(a[2])); let v = fl(a[3]); let g = DotProductProofGens::new(x.len(), b"g"); let (p, c, d) = DotProductProofLog::prove(&g, &mut tn(), &mut rt(), &x, &v[0], &y, &v[1], &v[2]); chk(&p, a[0], |p| (p.verify(x.len(), &g, &mut tn(), &y, &c, &d).is_ok())) }
        "polyeval" => { let (zz, x) = (DensePolynomial::new(fl(a[1])), fl(a[2])); let v = fl(a[3]); let g = PolyCommitmentGens::new(x.len(), b"g"); let mut t = rt(); let (c, b) = zz.commit(&g, Some(&mut t)); let (p, d) = PolyEvalProof::prove(&zz, Some(&b), &x, &v[0], Some(&v[1]), &g, &mut tn(), &mut t); chk(&p, a[0], |p| (p.verify(&g, &mut tn(), &x, &d, &c).is_ok())) }
        "sumcheck" => { let mut d: Vec<DensePolynomial> = a[1..4].iter().map(|x| DensePolynomial::new(fl(x))).collect(); let cl = f1(a[4]); let k = d[0].get_num_vars(); let (mut c, mut b, mut aa) = (d.pop().unwrap(), d.pop().unwrap(), d.pop().unwrap());
            let (p, r, f) = SumcheckInstanceProof::prove_cubic(&cl, k, &mut aa, &mut b, &mut c, |x: &Scalar, y: &Scalar, z: &Scalar| x * y * z, &mut tn()); chk(&p, a[0], |p| (match p.verify(cl, k, 3, &mut tn()) { Ok((e, q)) => e == f[0] * f[1] * f[2] && q == r, _ => false })) }
        "batched" => { let mut d: Vec<DensePolynomial> = a[1..7].iter().map(|x| DensePolynomial::new(fl(x))).collect(); let (w, cl) = (fl(a[7]), f1(a[8])); let k = d[0].get_num_vars();
            let (x, y) = d.split_at_mut(3); let (mut pa, r1) = x.split_at_mut(1); let (mut pb, pc) = r1.split_at_mut(1); let (sa, r2) = y.split_at_mut(1); let (sb, sc) = r2.split_at_mut(1);
            let (p, r, f, g) = SumcheckInstanceProof::prove_cubic_batched(&cl, k, (&mut pa.iter_mut().collect(), &mut pb.iter_mut().collect(), &mut pc[0]), (&mut sa.iter_mut().collect(), &mut sb.iter_mut().collect(), &mut sc.iter_mut().collect()), &w, |x: &Scalar, y: &Scalar, z: &Scalar| x * y * z, &mut tn());
            chk(&p, a[0], |p| (match p.verify(cl, k, 3, &mut tn()) { Ok((e, q)) => e == w[0] * f.0[0] * f.1[0] * f.2 + w[1] * g.0[0] * g.1[0] * g.2[0] && q == r, _ => false })) }
        "zkquad" => { let mut x = DensePolynomial::new(fl(a[1])); let mut y = DensePolynomial::new(fl(a[2])); let v = fl(a[3]); let k = x.get_num_vars(); let (g1, gn) = zg(3);
            let (p, r, f, b) = ZKSumcheckInstanceProof::prove_quad(&v[0], &v[1], k, &mut x, &mut y, |x: &Scalar, y: &Scalar| x * y, &g1, &gn, &mut tn(), &mut rt());
            chk(&p, a[0], |p| (match p.verify(&v[0].commit(&v[1], &g1).compress(), k, 2, &g1, &gn, &mut tn()) { Ok((c, q)) => c == (f[0] * f[1]).commit(&b, &g1).compress() && q == r, _ => false })) }
        "zkcubic" => { let mut d: Vec<DensePolynomial> = a[1..5].iter().map(|x| DensePolynomial::new(fl(x))).collect(); let v = fl(a[5]); let k = d[0].get_num_vars(); let (g1, gn) = zg(4); let (mut w, mut z, mut y, mut x) = (d.pop().unwrap(), d.pop().unwrap(), d.pop().unwrap(), d.pop().unwrap());
            let (p, r, f, b) = ZKSumcheckInstanceProof::prove_cubic_with_additive_term(&v[0], &v[1], k, &mut x, &mut y, &mut z, &mut w, |x: &Scalar, y: &Scalar, z: &Scalar, w: &Scalar| x * (y * z - w), &g1, &gn, &mut tn(), &mut rt());
            chk(&p, a[0], |p| (match p.verify(&v[0].commit(&v[1], &g1).compress(), k, 3, &g1, &gn, &mut tn()) { Ok((c, q)) => c == (f[0] * (f[1] * f[2] - f[3])).commit(&b, &g1).compress() && q == r, _ => false })) }
        "nizk" => {
            use crate::*;
            let i = match Instance::new(n(a[1]), n(a[2]), n(a[3]), &mx(a[4]), &mx(a[5]), &mx(a[6])) { Ok(x) => x, Err(e) => return Some(format!("{:?}", e)) };
            let v = match Assignment::new(&b32(a[7])) { Ok(x) => x, Err(e) => return Some(format!("{:?}", e)) }; let x = match Assignment::new(&b32(a[8])) { Ok(x) => x, Err(e) => return Some(format!("{:?}", e)) };
            let g = NIZKGens::new(n(a[1]), n(a[2]), n(a[3]));
            // f, e: both sides leave out the last public input, or have one more
            if a[0] == "f" || a[0] == "e" {
                let mut y = x.assignment.clone(); if a[0] == "f" { y.pop(); } else { y.push(Scalar::one()); } let y = Assignment { assignment: y };
                return Some(fin(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let q = NIZK::prove(&i, v, &y, &g, &mut tn()); q.verify(&i, &y, &mut tn(), &g).is_ok() })).ok()));
            }
            let p = NIZK::prove(&i, v, &x, &g, &mut tn());
            // another statement: the first public input changed
            if a[0] == "xb" { let mut y = x.assignment.clone(); y[0] += Scalar::one(); merlin::take_challenges(); let _ = p.verify(&i, &x, &mut tn(), &g); let c = merlin::take_challenges(); let _ = p.verify(&i, &Assignment { assignment: y }, &mut tn(), &g); let d = merlin::take_challenges(); return Some(if c.first() == d.first() { "challenge does not depend on the public input" } else { "bound" }.into()); }
            if a[0] == "x" { let mut y = x.assignment.clone(); y[0] += Scalar::one(); return Some(fin(Some(p.verify(&i, &Assignment { assignment: y }, &mut tn(), &g).is_ok()))); }
            chk(&p, a[0], |p| (p.verify(&i, &x, &mut tn(), &g).is_ok()))
        }
        "snark" => {
            use crate::*;
            let ms = [mx(a[4]), mx(a[5]), mx(a[6])];
            let i = match Instance::new(n(a[1]), n(a[2]), n(a[3]), &ms[0], &ms[1], &ms[2]) { Ok(x) => x, Err(e) => return Some(format!("{:?}", e)) };
            let v = match Assignment::new(&b32(a[7])) { Ok(x) => x, Err(e) => return Some(format!("{:?}", e)) }; let x = match Assignment::new(&b32(a[8])) { Ok(x) => x, Err(e) => return Some(format!("{:?}", e)) };
            let g = SNARKGens::new(n(a[1]), n(a[2]), n(a[3]), ms.iter().map(|m| m.len()).max().unwrap()); let (c, d) = SNARK::encode(&i, &g);
            let v2 = v.assignment.clone(); let p = SNARK::prove(&i, &c, &d, v, &x, &g, &mut tn());
            let ok = |p: &SNARK, c: &ComputationCommitment, x: &InputsAssignment| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.verify(c, x, &mut tn(), &g).is_ok())).unwrap_or(false);
            // another statement: the first public input changed, or another circuit committed to
            if a[0] == "x" { let mut y = x.assignment.clone(); y[0] += Scalar::one(); return Some(fin(Some(ok(&p, &c, &Assignment { assignment: y })))); }
// f: both sides leave out the last public input
            if a[0] == "f" {
                let mut y = x.assignment.clone(); y.pop(); let y = Assignment { assignment: y };
                return Some(fin(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let q = SNARK::prove(&i, &c, &d, Assignment { assignment: v2 }, &y, &g, &mut tn()); q.verify(&c, &y, &mut tn(), &g).is_ok() })).ok()));
            }
            if a[0] == "c" || a[0] == "d" {
                let k = ms.iter().position(|m| m.len() > 0); if k.is_none() { return Some("reject".into()); } let k = k.unwrap();
                let mut m = ms.clone(); { let q = &mut m[k][0].2[0]; *q = if *q == 0 { 1 } else { 0 }; } let j = match Instance::new(n(a[1]), n(a[2]), n(a[3]), &m[0], &m[1], &m[2]) { Ok(x) => x, Err(e) => return Some(format!("{:?}", e)) }; let (c2, _) = SNARK::encode(&j, &g);
                // d: the prover runs over the old circuit against the commitment to the new one
                let q = if a[0] == "d" { SNARK::prove(&i, &c2, &d, Assignment { assignment: v2 }, &x, &g, &mut tn()) } else { p };
                return Some(fin(Some(ok(&q, &c2, &x))));
            }
            chk(&p, a[0], |p| ok(&p, &c, &x))
        }
        "dsc" => { use crate::scalar::ScalarBytesFromScalar; let s: crate::scalar::ScalarBytes = Scalar::decompress_scalar(&f1(a[0])); hex(&s.to_bytes()) }
        "dsv" => { use crate::scalar::ScalarBytesFromScalar; let x = fl(a[0]); let v: Vec<crate::scalar::ScalarBytes> = Scalar::decompress_vector(&x); v.iter().map(|s| hex(&s.to_bytes())).collect::<Vec<_>>().join(",") }
        "gmul" => { let (p, s) = (gk(a[1]), f1(a[2])); oc(&match n(a[0]) { 0 => &p * &s, 1 => p * &s, 2 => &p * s, 3 => p * s, 4 => &s * &p, 5 => s * &p, 6 => &s * p, 7 => s * p, 8 => { let mut q = p; q *= &s; q } _ => { let mut q = p; q *= s; q } }) }
        "msm" => { let g: Vec<GroupElement> = fl(a[1]).iter().map(|x| GroupElement::generator() * *x).collect(); oc(&GroupElement::vartime_multiscalar_mul(fl(a[0]), g)) }
        "commit1" => { let g = mg(a[2], a[3]); oc(&f1(a[0]).commit(&f1(a[1]), &g)) }
        "commitv" => { let g = mg(a[2], a[3]); oc(&fl(a[0]).commit(&f1(a[1]), &g)) }
        "commits" => { let g = mg(a[2], a[3]); oc(&fl(a[0])[..].commit(&f1(a[1]), &g)) }
        "gclone" => og(&mg(a[0], a[1]).clone()),
        "gscale" => og(&mg(a[0], a[1]).scale(&f1(a[2]))),
        "gsplit" => { let (x, y) = mg(a[0], a[1]).split_at(n(a[2])); format!("{} {}", og(&x), og(&y)) }
        "gnew" => {
            use digest::{ExtendableOutput, Input}; use std::io::Read;
            let (k, l) = (n(a[0]), unhex(a[1])); let g = MultiCommitGens::new(k, &l);
            let mut sh = sha3::Shake256::default(); sh.input(&l); sh.input(GroupElement::generator().compress().as_bytes()); let mut rd = sh.xof_result();
            let mut w: Vec<String> = vec![]; for _ in 0..k + 1 { let mut u = [0u8; 128]; rd.read_exact(&mut u).unwrap(); w.push(oc(&GroupElement::from_uniform_bytes(&u))); }
            let mut v: Vec<String> = g.G.iter().map(oc).collect(); v.push(oc(&g.h)); let okn = g.n == k && v.len() == k + 1; v.sort(); w.sort(); same(okn && v == w)
        }
        "tr_scalar" => { let s = f1(a[0]); let (mut t, mut u) = (tn(), tn()); ProofTranscript::append_scalar(&mut t, b"l", &s); u.append_message(b"l", &s.to_bytes()); same(cb(&mut t) == cb(&mut u)) }
        "tr_point" => { let p = gk(a[0]).compress(); let (mut t, mut u) = (tn(), tn()); ProofTranscript::append_point(&mut t, b"l", &p); u.append_message(b"l", p.as_bytes()); same(cb(&mut t) == cb(&mut u)) }
        "tr_name" => { let (x, y): (&'static [u8], &'static [u8]) = (Box::leak(unhex(a[0]).into()), Box::leak(unhex(a[1]).into())); let (mut t, mut u) = (tn(), tn()); ProofTranscript::append_protocol_name(&mut t, x); ProofTranscript::append_protocol_name(&mut u, y); same((cb(&mut t) == cb(&mut u)) == (x == y)) }
        "tr_challenge" => { let (mut t, mut u) = (tn(), tn()); t.append_message(b"m", &unhex(a[0])); u.append_message(b"m", &unhex(a[0])); let c = ProofTranscript::challenge_scalar(&mut t, b"c"); let mut b = [0u8; 64]; u.challenge_bytes(b"c", &mut b); same(c == Scalar::from_bytes_wide(&b) && cb(&mut t) == cb(&mut u)) }
        "tr_cvec" => { let k = n(a[0]); let (mut t, mut u) = (tn(), tn()); t.append_message(b"m", &unhex(a[1])); u.append_message(b"m", &unhex(a[1])); let c = ProofTranscript::challenge_vector(&mut t, b"c", k); let d: Vec<Scalar> = (0..k).map(|_| ProofTranscript::challenge_scalar(&mut u, b"c")).collect(); same(c == d && cb(&mut t) == cb(&mut u)) }
        "tr_vec" => { use crate::transcript::AppendToTranscript; let (x, y) = (fl(a[0]), fl(a[1])); let (mut t, mut u) = (tn(), tn()); x[..].append_to_transcript(b"l", &mut t); y[..].append_to_transcript(b"l", &mut u); same((cb(&mut t) == cb(&mut u)) == (x == y)) }
        "tape" => { let (mut t, mut u) = (rt(), rt()); let v: Vec<Scalar> = (0..4).map(|_| t.random_scalar(b"x")).chain((0..4).map(|_| u.random_scalar(b"x"))).collect(); same((0..8).all(|i| (0..i).all(|j| v[i] != v[j]))) }
        _ => return None,
    })
}
use crate::transcript::ProofTranscript;
fn same(x: bool) -> String { if x { "same" } else { "differ" }.into() }
fn cb(t: &mut Transcript) -> [u8; 64] { let mut b = [0u8; 64]; t.challenge_bytes(b"probe", &mut b); b }
fn mg(gs: &str, h: &str) -> MultiCommitGens { let g: Vec<GroupElement> = fl(gs).iter().map(|x| GroupElement::generator() * *x).collect(); MultiCommitGens { n: g.len(), G: g, h: gk(h) } }
fn og(g: &MultiCommitGens) -> String { format!("{} {} {}", g.n, g.G.iter().map(oc).collect::<Vec<_>>().join(","), oc(&g.h)) }
fn tn() -> Transcript { Transcript::new(b"replay") }
fn rt() -> RandomTape { RandomTape::new(b"proof") }
fn zg(n: usize) -> (MultiCommitGens, MultiCommitGens) { let g = MultiCommitGens::new(n, b"g"); let (x, _) = MultiCommitGens::new(1, b"k").split_at(1); (MultiCommitGens { n: 1, G: x.G, h: g.h }, g) }
// mode b:k - does the verifier's last challenge depend on the k-th point of the proof?
fn chk<T: serde::Serialize + serde::de::DeserializeOwned>(p: &T, mode: &str, mut f: impl FnMut(T) -> bool) -> String {
    if mode.starts_with("s:") {
        let t: Vec<usize> = mode[2..].split(':').map(|x| x.parse().unwrap()).collect(); let mut b = bincode::serialize(p).unwrap();
        if !shift(&mut b, t[0], t[1]) { return "reject".into(); }
        return fin(bincode::deserialize::<T>(&b).ok().map(|q| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(q))).unwrap_or(false)));
    }
    if !mode.starts_with("b:") { return fin(back(p, mode).map(f)); }
    let k: usize = mode[2..].parse().unwrap(); let mut b = bincode::serialize(p).unwrap(); let mut at = vec![];
    for i in 0..b.len().saturating_sub(40) { if b[i..i + 8] == [33, 0, 0, 0, 0, 0, 0, 0] && (b[i + 8] == 2 || b[i + 8] == 3) && CompressedGroup::from_bytes(&b[i + 8..i + 41]).map_or(false, |c| c.unpack().is_ok()) { at.push(i + 8); } }
    if at.is_empty() { return "bound".into(); }
    let q: T = bincode::deserialize(&b).unwrap(); let i = at[k % at.len()];
    let w = (GroupElement::generator() * Scalar::from(7 + k as u64)).compress(); b[i..i + 33].copy_from_slice(w.as_bytes());
    let q2: T = bincode::deserialize(&b).unwrap();
    merlin::take_challenges(); let _ = f(q); let x = merlin::take_challenges(); let _ = f(q2); let y = merlin::take_challenges();
    if y.len() >= x.len() && x.last() == y.last() && x.last().is_some() { format!("challenge does not depend on point {} of {}", k % at.len(), at.len()) } else { "bound".into() }
}
// move the boundary between two neighbouring lists of the encoding
fn shift(b: &mut Vec<u8>, k: usize, d: usize) -> bool {
    let u = |b: &[u8], i: usize| -> Option<usize> { if i + 8 > b.len() { None } else { Some(u64::from_le_bytes(b[i..i + 8].try_into().unwrap()) as usize) } };
    let list = |b: &[u8], i: usize| -> Option<(usize, usize, usize)> {
        let m = u(b, i)?; if m > 64 { return None; } let w = if m == 0 { 0 } else { u(b, i + 8)? }; if m > 0 && w != 32 && w != 33 { return None; }
        for j in 0..m { if u(b, i + 8 + j * (8 + w))? != w || i + 8 + (j + 1) * (8 + w) > b.len() { return None; } } Some((m, w, i + 8 + m * (8 + w))) };
    let mut at = vec![]; let mut i = 0;
    while i < b.len() { if let Some((m, w, e)) = list(b, i) { if let Some((m2, w2, e2)) = list(b, e) { if m + m2 > 0 && m > 0 && (m2 == 0 || w2 == w) { at.push((i, m, w, e, m2, e2)); } } } i += 1; }
    if at.is_empty() { return false; }
    let (i, m, w, e, m2, e2) = at[k % at.len()]; let m3 = (m + 1 + d % (m + m2)) % (m + m2 + 1);
    let mut el = b[i + 8..e].to_vec(); el.extend_from_slice(&b[e + 8..e2]); let mut o = b[..i].to_vec();
    o.extend_from_slice(&(m3 as u64).to_le_bytes()); o.extend_from_slice(&el[..m3 * (8 + w)]); o.extend_from_slice(&((m + m2 - m3) as u64).to_le_bytes()); o.extend_from_slice(&el[m3 * (8 + w)..]);
    o.extend_from_slice(&b[e2..]); *b = o; true
}
fn fin(r: Option<bool>) -> String { match r { Some(true) => "accept".into(), _ => "reject".into() } }
fn back<T: serde::Serialize + serde::de::DeserializeOwned>(p: &T, tamper: &str) -> Option<T> {
    let mut b = bincode::serialize(p).unwrap(); let o = b.clone();
    if tamper != "-" { let t: Vec<usize> = tamper.split(':').map(|x| x.parse().unwrap()).collect(); let k = t[0] % b.len(); b[k] ^= t[1] as u8; }
    // the change must reach the proof itself (the length prefix of a scalar is not part of it)
    bincode::deserialize::<T>(&b).ok().filter(|q| tamper == "-" || bincode::serialize(q).unwrap() != o)
}

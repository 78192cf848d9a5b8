// Concrete execution of the real field code, used to replay counterexamples and as the bounded stand-in.
// A field element travels as its raw Montgomery limbs (5 x u64, little endian, 80 hex digits).
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn u64s(s: &str) -> Vec<u64> { unhex(s).chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect() }
pub fn arr<const N: usize>(s: &str) -> [u8; N] { unhex(s).try_into().unwrap() }
pub fn b(x: bool) -> String { if x { "1".into() } else { "0".into() } }

#[macro_export]
macro_rules! field_ops {
    ($name:ident, $T:ty, $raw:ty) => {
        pub mod $name {
            use super::*;
            pub fn g(s: &str) -> $T { let l: [u64; 5] = u64s(s).try_into().unwrap(); unsafe { std::mem::transmute::<[u64; 5], $T>(l) } }
            pub fn o(x: $T) -> String { let l: [u64; 5] = unsafe { std::mem::transmute::<$T, [u64; 5]>(x) }; l.iter().map(|w| hex(&w.to_le_bytes())).collect() }
            pub fn list(s: &str) -> Vec<$T> { s.as_bytes().chunks(80).map(|c| g(std::str::from_utf8(c).unwrap())).collect() }
            pub fn run(op: &str, a: &[&str]) -> Option<String> {
                use std::ops::*;
                Some(match op {
                    "add" => o(<$T>::add(&g(a[0]), &g(a[1]))),
                    "sub" => o(<$T>::sub(&g(a[0]), &g(a[1]))),
                    "mul" => o(<$T>::mul(&g(a[0]), &g(a[1]))),
                    "neg" => o(<$T>::neg(&g(a[0]))),
                    "double" => o(<$T>::double(&g(a[0]))),
                    "square" => o(<$T>::square(&g(a[0]))),
                    "zero" => o(<$T>::zero()),
                    "one" => o(<$T>::one()),
                    "op_add_vv" => o(g(a[0]) + g(a[1])), "op_add_vr" => o(g(a[0]) + &g(a[1])), "op_add_rv" => o(&g(a[0]) + g(a[1])), "op_add_rr" => o(&g(a[0]) + &g(a[1])),
                    "op_sub_vv" => o(g(a[0]) - g(a[1])), "op_sub_vr" => o(g(a[0]) - &g(a[1])), "op_sub_rv" => o(&g(a[0]) - g(a[1])), "op_sub_rr" => o(&g(a[0]) - &g(a[1])),
                    "op_mul_vv" => o(g(a[0]) * g(a[1])), "op_mul_vr" => o(g(a[0]) * &g(a[1])), "op_mul_rv" => o(&g(a[0]) * g(a[1])), "op_mul_rr" => o(&g(a[0]) * &g(a[1])),
                    "add_assign_v" => { let mut x = g(a[0]); x += g(a[1]); o(x) } "add_assign_r" => { let mut x = g(a[0]); x += &g(a[1]); o(x) }
                    "sub_assign_v" => { let mut x = g(a[0]); x -= g(a[1]); o(x) } "sub_assign_r" => { let mut x = g(a[0]); x -= &g(a[1]); o(x) }
                    "mul_assign_v" => { let mut x = g(a[0]); x *= g(a[1]); o(x) } "mul_assign_r" => { let mut x = g(a[0]); x *= &g(a[1]); o(x) }
                    "op_neg_v" => o(Neg::neg(g(a[0]))), 
                    "default" => o(<$T>::default()),
                    "zeroize" => { let mut x = g(a[0]); Zeroize::zeroize(&mut x); o(x) }
                    "ct_eq" => b(g(a[0]).ct_eq(&g(a[1])).into()),
                    "eq" => b(g(a[0]) == g(a[1])),
                    "ne" => b(g(a[0]) != g(a[1])),
                    "csel" => o(<$T>::conditional_select(&g(a[0]), &g(a[1]), Choice::from(unhex(a[2])[0]))),
                    "from_raw" => o(<$T>::from_raw(u64s(a[0]).try_into().unwrap())),
                    "from_u64" => o(<$T>::from(u64s(a[0])[0])),
                    "from_bytes_wide" => o(<$T>::from_bytes_wide(&arr::<64>(a[0]))),
                    "from_bytes" => { let r = <$T>::from_bytes(&arr::<32>(a[0])); if r.is_some().into() { format!("1 {}", o(r.unwrap())) } else { "0".into() } }
                    "to_bytes" => hex(&g(a[0]).to_bytes()),
                    "pow" => o(g(a[0]).pow(&u64s(a[1]).try_into().unwrap())),
                    "pow_vartime" => o({ let e: [u64; 4] = u64s(a[1]).try_into().unwrap(); g(a[0]).pow_vartime(&e) }),
                    "invert" => { let r = <$T>::invert(&g(a[0])); if r.is_some().into() { format!("1 {}", o(r.unwrap())) } else { "0".into() } }
                    "batch_invert" => { let mut v = list(a[0]); let r = <$T>::batch_invert(&mut v); format!("{} {}", o(r), v.into_iter().map(o).collect::<String>()) }
                    "sum" => o(list(a.get(0).unwrap_or(&"")).iter().sum::<$T>()),
                    "product" => o(list(a.get(0).unwrap_or(&"")).iter().product::<$T>()),
                    "sum_val" => o(list(a.get(0).unwrap_or(&"")).into_iter().sum::<$T>()),
                    "product_val" => o(list(a.get(0).unwrap_or(&"")).into_iter().product::<$T>()),
                    "ser" => hex(&bincode::serialize(&g(a[0])).unwrap()),
                    "de" => match bincode::deserialize::<$T>(&unhex(a[0])) { Ok(x) => format!("1 {}", o(x)), Err(_) => "0".into() },
                    "de32" => { let v = unhex(a.get(0).unwrap_or(&"")); match super::de_bytes::<$T>(&v) { Some(x) => format!("1 {}", o(x)), None => "0".into() } }
                    "debug" => format!("{:?}", g(a[0])),
                    _ => return None,
                })
            }
        }
    };
}

pub fn serve(f: impl Fn(&str, &str, &[&str]) -> Option<String> + std::panic::RefUnwindSafe) {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout(); let mut out = std::io::BufWriter::new(out.lock());
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap(); let w: Vec<&str> = l.split(' ').collect();
        let r = std::panic::catch_unwind(|| f(w[0], w[1], &w[2..]));
        match r {
            Ok(Some(s)) => writeln!(out, "{}", s).unwrap(),
            Ok(None) => writeln!(out, "UNKNOWN").unwrap(),
            Err(e) => { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); writeln!(out, "PANIC {}", m.replace('\n', " ")).unwrap() }
        }
    }
}

import sys; sys.path.insert(0, "/verif/tools")
from mkseed import *
CR = "packages/circuit_reader/src/circom_reader.rs"; MA = "packages/Spartan-secq/src/math.rs"
mk("s01-log-float", "S01", [(MA, "      (0usize.leading_zeros() - self.leading_zeros()) as usize\n", "      (self as f64).log2().ceil() as usize\n")], "a size above 2^53 that is one more than a power of two", "log_2 rounds down",
   math_demo("    for k in 1..63 { assert_eq!(((1usize << k) + 1).log_2(), k + 1); assert_eq!((1usize << k).log_2(), k); }"))
mk("s01-bits-narrow", "S01", [(MA, "((self & (1 << (num_bits - shift_amount - 1))) > 0)", "((self & (1 << (num_bits - shift_amount - 1))) as i64 > 0)")], "an index with bit 63 set", "the top bit of a 64-bit index is reported clear",
   math_demo("    let x = usize::MAX - 5; let b = x.get_bits(64); for i in 0..64 { assert_eq!(b[63 - i], x >> i & 1 == 1); }"))
mk("r01-map-order", "R01", [(CR, "        vec.push(reader.read_u64::<LittleEndian>()?);\n", "        vec.push(reader.read_u64::<LittleEndian>()? & 0xffff_ffff);\n")], "a wire label above 2^32", "wire labels are cut to 32 bits",
   reader_demo("    let f = file(&[(1, header(2, 0, 1, 0, 9, 0)), (2, vec![]), (3, map(&[0, 1 << 40]))]); assert_eq!(parse(&f).unwrap().wire_mapping, vec![0, 1 << 40]);"))
mk("r01-pub-count", "R01", [(CR, "    let num_inputs = (1 + file.header.n_pub_in + file.header.n_pub_out) as usize;", "    let num_inputs = (1 + file.header.n_pub_in | file.header.n_pub_out) as usize;")], "public input and output counts with a carry or common bit between them", "the number of public signals is wrong",
   reader_demo("    for (o, i) in [(0, 0), (0, 3), (4, 0), (3, 2), (2, 5)] { let f = file(&[(1, header(9, o, i, 0, 9, 0)), (2, vec![]), (3, map(&[0; 9]))]); let (r, _) = load(&f); assert_eq!((r.num_inputs, r.num_aux, r.num_variables), ((1 + o + i) as usize, (8 - o - i) as usize, 9)); }"))
mk("r02-map-size", "R02", [(CR, "    if size != header.n_wires as u64 * 8 {", "    if size < header.n_wires as u64 * 8 {")], "a wire map longer than the number of wires", "an inconsistent wire map section is accepted",
   reader_demo("    let f = file(&[(1, header(2, 0, 1, 0, 9, 0)), (2, vec![]), (3, map(&[0, 5, 6]))]); assert!(parse(&f).is_err()); let f = file(&[(1, header(2, 0, 1, 0, 9, 0)), (2, vec![]), (3, map(&[0, 5]))]); assert!(parse(&f).is_ok());"))
mk("r02-short-coeff", "R02", [(CR, "        *digit = reader.read_u8()?;", "        *digit = reader.read_u8().unwrap_or(0);")], "a file that ends inside the coefficients, with the constraint section last", "a truncated coefficient is padded with zeros and accepted",
   reader_demo("    let f = file(&[(1, header(2, 0, 1, 0, 9, 1)), (3, map(&[0, 5])), (2, cons(&[[vec![], vec![], vec![(1, k(9))]]]))]); assert!(parse(&f).is_ok()); for n in 0..f.len() { assert!(parse(&f[..n]).is_err(), \"{}\", n); }"))

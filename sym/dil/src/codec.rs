//! D03, D04: bit packing of polynomials, keys and signatures; the hint encoding
use crate::ffi::*;
use crate::rt::*;

/// 256 values low + (0 ..= top) in the given number of bits; returns base - value
fn coeffs(name: &str, bits: u32, f: impl Fn(i32) -> i32) -> Poly {
    let b = bytes(name, 4 * N);
    let mut c = zero();
    for i in 0..N {
        let v = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]) & ((1 << bits) - 1);
        c[i] = f(v as i32);
    }
    c
}

fn name(n: &str, i: usize) -> String {
    let mut s = String::from(n);
    s.push((b'0' + i as u8) as char);
    s
}

fn same(id: &str, a: &Poly, b: &Poly) {
    for i in 0..N {
        check(id, a[i] == b[i]);
    }
}

fn same_vec(id: &str, a: &[Poly], b: &[Poly]) {
    for (x, y) in a.iter().zip(b) {
        same(id, x, y);
    }
}

/// the bits of a little-endian bit string
fn bits(b: &[u8], at: usize, n: usize) -> i32 {
    let mut r = 0;
    for i in 0..n {
        r |= ((b[(at + i) / 8] >> ((at + i) % 8) & 1) as i32) << i;
    }
    r
}

macro_rules! codec {
    ($m:ident) => {
        pub mod $m {
            use super::*;
            use crate::ffi::$m::*;
            const EB: usize = ETAB / 32;
            const GB: usize = ZB / 32;
            const WB: usize = W1B / 32;

            fn z_poly(n: &str) -> Poly {
                coeffs(n, GB as u32, |v| GAMMA1 - v)
            }
            fn t1_poly(n: &str) -> Poly {
                coeffs(n, 10, |v| v)
            }
            fn t0_poly(n: &str) -> Poly {
                coeffs(n, 13, |v| 4096 - v)
            }
            /// one symbolic value of [-eta, eta] per residue of the index, at one place
            fn eta_poly(n: &str) -> Poly {
                let c = coeffs(n, EB as u32, |v| ETA - v);
                c
            }

            /// one kind of polynomial: coefficients to bytes and back, bytes to coefficients and back, and the layout
            pub fn polys() {
                unsafe {
                    let c = z_poly("z");
                    let (mut b, mut d) = (vec![0x55u8; ZB], [7; N]);
                    CLEAN_polyz_pack(b.as_mut_ptr(), &c);
                    CLEAN_polyz_unpack(&mut d, b.as_ptr());
                    same("z: changed by packing and unpacking", &c, &d);
                    for i in 0..N {
                        check("z: layout", GAMMA1 - bits(&b, i * GB, GB) == c[i]);
                    }
                    let b = bytes("zb", ZB);
                    let mut e = vec![0x55u8; ZB];
                    CLEAN_polyz_unpack(&mut d, b.as_ptr());
                    CLEAN_polyz_pack(e.as_mut_ptr(), &d);
                    check("z: bytes changed by unpacking and packing", eq(&b, &e));
                    for i in 0..N {
                        check("z: outside its range", (d[i] > -GAMMA1) & (d[i] <= GAMMA1));
                    }

                    let c = t1_poly("t1");
                    let (mut b, mut d) = (vec![0x55u8; 320], [7; N]);
                    CLEAN_polyt1_pack(b.as_mut_ptr(), &c);
                    CLEAN_polyt1_unpack(&mut d, b.as_ptr());
                    same("t1: changed by packing and unpacking", &c, &d);
                    for i in 0..N {
                        check("t1: layout", bits(&b, i * 10, 10) == c[i]);
                    }
                    let b = bytes("t1b", 320);
                    let mut e = vec![0x55u8; 320];
                    CLEAN_polyt1_unpack(&mut d, b.as_ptr());
                    CLEAN_polyt1_pack(e.as_mut_ptr(), &d);
                    check("t1: bytes changed by unpacking and packing", eq(&b, &e));

                    let c = t0_poly("t0");
                    let (mut b, mut d) = (vec![0x55u8; 416], [7; N]);
                    CLEAN_polyt0_pack(b.as_mut_ptr(), &c);
                    CLEAN_polyt0_unpack(&mut d, b.as_ptr());
                    same("t0: changed by packing and unpacking", &c, &d);
                    for i in 0..N {
                        check("t0: layout", 4096 - bits(&b, i * 13, 13) == c[i]);
                    }
                    let b = bytes("t0b", 416);
                    let mut e = vec![0x55u8; 416];
                    CLEAN_polyt0_unpack(&mut d, b.as_ptr());
                    CLEAN_polyt0_pack(e.as_mut_ptr(), &d);
                    check("t0: bytes changed by unpacking and packing", eq(&b, &e));

                    let c = eta_poly("s");
                    let (mut b, mut d) = (vec![0x55u8; ETAB], [7; N]);
                    CLEAN_polyeta_pack(b.as_mut_ptr(), &c);
                    CLEAN_polyeta_unpack(&mut d, b.as_ptr());
                    same("eta: changed by packing and unpacking", &c, &d);
                    for i in 0..N {
                        check("eta: layout", ETA - bits(&b, i * EB, EB) == c[i]);
                    }

                    let c = coeffs("w1", WB as u32, |v| v);
                    let mut b = vec![0x55u8; W1B];
                    CLEAN_polyw1_pack(b.as_mut_ptr(), &c);
                    for i in 0..N {
                        check("w1: layout", bits(&b, i * WB, WB) == c[i]);
                    }
                }
                reach("packed and unpacked");
            }

            pub fn keys() {
                let b = bytes("pk", PK);
                let (mut rho, mut t1, mut e) = ([0u8; 32], [[7; N]; K], vec![0x55u8; PK]);
                unsafe {
                    CLEAN_unpack_pk(rho.as_mut_ptr(), &mut t1, b.as_ptr());
                    CLEAN_pack_pk(e.as_mut_ptr(), rho.as_ptr(), &t1);
                }
                check("public key changed by unpacking and packing", eq(&b, &e));
                check("seed of the public key", eq(&rho, &b[..32]));
                for k in 0..K {
                    for i in 0..N {
                        check("vector of the public key", t1[k][i] == bits(&b[32 + 320 * k..], i * 10, 10));
                    }
                }

                let (rho, key, tr): ([u8; 32], [u8; 32], [u8; 64]) = (arr("rho"), arr("key"), arr("tr"));
                let (mut s1, mut s2, mut t0) = ([zero(); L], [zero(); K], [zero(); K]);
                for i in 0..L {
                    s1[i] = eta_poly(&name("s1", i));
                }
                for i in 0..K {
                    s2[i] = eta_poly(&name("s2", i));
                    t0[i] = t0_poly(&name("t0", i));
                }
                let mut sk = vec![0x55u8; SK];
                let (mut rho1, mut key1, mut tr1) = ([0u8; 32], [0u8; 32], [0u8; 64]);
                let (mut s11, mut s21, mut t01) = ([zero(); L], [zero(); K], [zero(); K]);
                unsafe {
                    CLEAN_pack_sk(sk.as_mut_ptr(), rho.as_ptr(), tr.as_ptr(), key.as_ptr(), &t0, &s1, &s2);
                    CLEAN_unpack_sk(rho1.as_mut_ptr(), tr1.as_mut_ptr(), key1.as_mut_ptr(), &mut t01, &mut s11, &mut s21, sk.as_ptr());
                }
                check("rho of the secret key", eq(&rho, &rho1));
                check("key of the secret key", eq(&key, &key1));
                check("tr of the secret key", eq(&tr, &tr1));
                same_vec("s1 of the secret key", &s1, &s11);
                same_vec("s2 of the secret key", &s2, &s21);
                same_vec("t0 of the secret key", &t0, &t01);
                check("layout of the secret key", eq(&sk[..32], &rho) & eq(&sk[32..64], &key) & eq(&sk[64..128], &tr));
                let b = bytes("sk", SK);
                let mut e = vec![0x55u8; SK];
                unsafe {
                    CLEAN_unpack_sk(rho1.as_mut_ptr(), tr1.as_mut_ptr(), key1.as_mut_ptr(), &mut t01, &mut s11, &mut s21, b.as_ptr());
                    CLEAN_pack_sk(e.as_mut_ptr(), rho1.as_ptr(), tr1.as_ptr(), key1.as_ptr(), &t01, &s11, &s21);
                }
                check("secret key changed by unpacking and packing", eq(&b, &e));
                reach("keys");
            }

            /// the response and the challenge of a signature (no hints)
            pub fn response() {
                let c = bytes("c", CTILDE);
                let mut z = [zero(); L];
                for i in 0..L {
                    z[i] = z_poly(&name("z", i));
                }
                let h = [zero(); K];
                let mut sig = vec![0x55u8; SIG];
                let (mut c1, mut z1, mut h1) = (vec![0u8; CTILDE], [zero(); L], [[7; N]; K]);
                unsafe { CLEAN_pack_sig(sig.as_mut_ptr(), c.as_ptr(), &z, &h) };
                let r = unsafe { CLEAN_unpack_sig(c1.as_mut_ptr(), &mut z1, &mut h1, sig.as_ptr()) };
                check("an encoded signature is refused", r == 0);
                check("challenge of the signature", eq(&c, &c1) & eq(&c, &sig[..CTILDE]));
                same_vec("response of the signature", &z, &z1);
                same_vec("hints of the signature", &h, &h1);
                // in place, as the signer calls it
                let mut s2 = vec![0x55u8; SIG];
                s2[..CTILDE].copy_from_slice(&c);
                unsafe { CLEAN_pack_sig(s2.as_mut_ptr(), s2.as_ptr(), &z, &h) };
                check("encoding in place", eq(&sig, &s2));
                reach("response");
            }

            /// hints: how many in each polynomial comes from a family, where they are is symbolic
            pub fn hints() {
                let fam = choice("family", 5);
                let mut n = [0usize; K];
                match fam {
                    0 => {}
                    1 => n[K - 1] = OMEGA,
                    2 => n[0] = OMEGA,
                    3 => {
                        for k in 0..K {
                            n[k] = k % 3;
                        }
                    }
                    _ => {
                        for k in 0..K {
                            n[k] = OMEGA / K;
                        }
                        n[K / 2] += OMEGA % K;
                    }
                }
                let mut h = [zero(); K];
                // a few places are symbolic, the other ones fixed
                for k in 0..K {
                    for j in 0..n[k] {
                        h[k][if fam == 1 { 255 - j } else { (j * 3 + k) % 256 }] = 1;
                    }
                }
                if fam == 3 {
                    let p = arr::<1>("place")[0] as usize;
                    h[0] = zero();
                    h[0][p] = 1;
                }
                let (c, z) = (vec![9u8; CTILDE], [zero(); L]);
                let mut sig = vec![0x55u8; SIG];
                let (mut c1, mut z1, mut h1) = (vec![0u8; CTILDE], [zero(); L], [[7; N]; K]);
                unsafe { CLEAN_pack_sig(sig.as_mut_ptr(), c.as_ptr(), &z, &h) };
                let r = unsafe { CLEAN_unpack_sig(c1.as_mut_ptr(), &mut z1, &mut h1, sig.as_ptr()) };
                check("an encoded signature is refused", r == 0);
                same_vec("hints of the signature", &h, &h1);
                reach("hints");
            }

            // -------------------------------------------------------- D04

            /// the specification: which hint encodings are acceptable
            fn acceptable(h: &[u8], cnt: &[usize; K]) -> bool {
                let mut ok = true;
                let mut k = 0;
                for i in 0..K {
                    let e = cnt[i];
                    if e < k || e > OMEGA {
                        return false;
                    }
                    for j in k + 1..e.max(k + 1) {
                        ok &= h[j] > h[j - 1];
                    }
                    k = e;
                }
                for j in k..OMEGA {
                    ok &= h[j] == 0;
                }
                ok
            }

            /// counters from a family, all position bytes symbolic
            pub fn verdict() {
                let mut h = bytes("h", OMEGA + K);
                let mut cnt = [0usize; K];
                // non-decreasing counters: where the first and the second step happen, and their sizes
                let (i, a, j, b) = pick("shape", &[(0, 0, 0, 0), (0, 1, K - 1, 0), (0, 1, 1, 1), (1, 2, 2, 1), (K - 1, 2, K - 1, 0), (0, 2, K - 1, 3),
                    (1, 3, K - 1, OMEGA - 3), (0, OMEGA, K - 1, 0), (K - 1, OMEGA, K - 1, 0), (K - 1, OMEGA - 1, K - 1, 0), (2, OMEGA / 2, 3, OMEGA / 2)]);
                for k in 0..K {
                    cnt[k] = (if k >= i { a } else { 0 }) + (if k >= j { b } else { 0 });
                }
                for k in 0..K {
                    h[OMEGA + k] = cnt[k] as u8;
                }
                run(&h, &cnt);
            }

            /// one counter out of order or too large: any value
            pub fn counters() {
                let mut h = vec![0u8; OMEGA + K];
                for j in 0..OMEGA {
                    h[j] = 3 * j as u8 + 1;
                }
                let base = pick("base", &[0, 3, OMEGA]);
                let i = choice("i", K);
                let v = arr::<1>("v")[0];
                // a counter below the previous one, or above OMEGA, or below and the next ones as before
                let mut cnt = [base; K];
                for k in 0..i {
                    cnt[k] = base / 2;
                }
                let lo = if i > 0 { base / 2 } else { 0 };
                assume((v < lo as u8) | (v > OMEGA as u8) | ((v > base as u8) & (i < K - 1)));
                for k in 0..K {
                    h[OMEGA + k] = cnt[k] as u8;
                }
                h[OMEGA + i] = v;
                for j in base..OMEGA {
                    h[j] = 0;
                }
                let mut sig = vec![0u8; SIG];
                sig[SIG - OMEGA - K..].copy_from_slice(&h);
                let (mut c1, mut z1, mut h1) = (vec![0u8; CTILDE], [zero(); L], [[7; N]; K]);
                let r = unsafe { CLEAN_unpack_sig(c1.as_mut_ptr(), &mut z1, &mut h1, sig.as_ptr()) };
                check("counters out of order accepted", r != 0);
                reach("bad counters");
            }

            fn run(h: &[u8], cnt: &[usize; K]) {
                let mut sig = vec![0u8; SIG];
                sig[SIG - OMEGA - K..].copy_from_slice(h);
                let (mut c1, mut z1, mut h1) = (vec![0u8; CTILDE], [zero(); L], [[7; N]; K]);
                let r = unsafe { CLEAN_unpack_sig(c1.as_mut_ptr(), &mut z1, &mut h1, sig.as_ptr()) };
                if r == 0 {
                    check("a malformed hint encoding is accepted", acceptable(h, cnt));
                    reach("accepted");
                    let mut lo = 0;
                    for k in 0..K {
                        for p in 0..N {
                            let mut e = 0;
                            for j in lo..cnt[k] {
                                e = if h[j] == p as u8 { 1 } else { e };
                            }
                            check("accepted hints are not the encoded ones", h1[k][p] == e);
                        }
                        lo = cnt[k];
                    }
                } else {
                    check("a well-formed hint encoding is refused", !acceptable(h, cnt));
                    reach("refused");
                }
            }
        }
    };
}
codec!(d2);
codec!(d3);
codec!(d5);

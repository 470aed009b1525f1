//! The Saber key encapsulation mechanism (S01-S06)
use crate::rt::*;
use ::saber::verif_hooks as h;
use h::Coeffs;

const N: usize = 256;

/// 256 arbitrary coefficients below 2^width
fn coeffs(name: &str, width: u32) -> Coeffs {
    let b = bytes(name, 2 * N);
    let mut c = [0u16; N];
    for i in 0..N {
        c[i] = u16::from_le_bytes([b[2 * i], b[2 * i + 1]]) & low(width);
    }
    c
}

fn low(width: u32) -> u16 {
    ((1u32 << width) - 1) as u16
}

fn vect(name: &str, k: usize, width: u32) -> Vec<Coeffs> {
    (0..k).map(|i| coeffs(&format_name(name, i), width)).collect()
}

fn format_name(name: &str, i: usize) -> String {
    let mut s = String::from(name);
    s.push((b'0' + i as u8) as char);
    s
}

/// equal modulo 2^width, one obligation per coefficient
fn same(id: &str, a: &Coeffs, b: &Coeffs, width: u32) {
    for i in 0..N {
        check(id, a[i] & low(width) == b[i] & low(width));
    }
}

fn same_vec(id: &str, a: &[Coeffs], b: &[Coeffs], width: u32) {
    check(id, a.len() == b.len());
    for (x, y) in a.iter().zip(b) {
        same(id, x, y, width);
    }
}

fn shake128(seed: &[u8], n: usize) -> Vec<u8> {
    use sha3::digest::{ExtendableOutput, Input, XofReader};
    let mut h = sha3::Shake128::default();
    h.input(seed);
    let mut o = vec![0u8; n];
    h.xof_result().read(&mut o);
    o
}

fn sha3_256(parts: &[&[u8]]) -> Vec<u8> {
    use sha3::Digest;
    sha3::Sha3_256::digest(&parts.concat()).to_vec()
}

fn sha3_512(parts: &[&[u8]]) -> Vec<u8> {
    use sha3::Digest;
    sha3::Sha3_512::digest(&parts.concat()).to_vec()
}

/// inner product of the definition, out of polynomial products
fn inner(a: &[Coeffs], b: &[Coeffs]) -> Coeffs {
    let mut e = [0u16; N];
    for i in 0..a.len() {
        let p = h::mul(&a[i], &b[i]);
        for j in 0..N {
            e[j] = e[j].wrapping_add(p[j]);
        }
    }
    e
}

/// nearest multiple of eight modulo 2^13, divided by eight
fn rounded(c: u16) -> u16 {
    (c.wrapping_add(4) & 0x1fff) >> 3
}

// ------------------------------------------------------------------ S01

pub fn packing(width: usize) {
    let n = width * N / 8;
    // any coefficients, reduced or not: encoding keeps the low bits
    let c = coeffs("c", 16);
    let mut b = vec![0u8; n];
    h::pack(width, &c, &mut b);
    let d = h::unpack(width, &b);
    for i in 0..N {
        check("a coefficient is changed by encoding and decoding", d[i] == c[i] & low(width as u32));
    }
    let b = bytes("b", n);
    let mut e = vec![0xaau8; n];
    h::pack(width, &h::unpack(width, &b), &mut e);
    check("bytes are changed by decoding and encoding", eq(&b, &e));
    reach("encoded and decoded");
}

pub fn message() {
    let m = bytes("m", 32);
    let p = h::from_msg(&m);
    for i in 0..N {
        check("message bit in the wrong place", p[i] == (((m[i / 8] >> (i % 8)) & 1) as u16) << 9);
    }
    let mut o = vec![0xaau8; 32];
    h::to_msg(&h::shr(&p, 9), &mut o);
    check("message changed by encoding and decoding", eq(&m, &o));
    let bits = coeffs("bits", 1);
    let mut o = vec![0xaau8; 32];
    h::to_msg(&bits, &mut o);
    same("bits changed by decoding and encoding", &h::shr(&h::from_msg(&o), 9), &bits, 16);
    reach("message encoded and decoded");
}

/// ring arithmetic against the definition
pub fn ring_linear() {
    let (a, b) = (coeffs("a", 16), coeffs("b", 16));
    let k: [u8; 2] = arr("k");
    let k = u16::from_le_bytes(k);
    let (s, d, t, u) = (h::add(&a, &b), h::sub(&a, &b), h::add_const(&a, k), h::sub_const(&a, k));
    let (l, r) = (h::shl(&a, 3), h::shr(&a, 3));
    let m = h::reduce(&a, 1024);
    for i in 0..N {
        check("sum", s[i] == a[i].wrapping_add(b[i]));
        check("difference", d[i] == a[i].wrapping_sub(b[i]));
        check("sum with a constant", t[i] == a[i].wrapping_add(k));
        check("difference with a constant", u[i] == a[i].wrapping_sub(k));
        check("multiple of a power of two", l[i] == a[i].wrapping_mul(8));
        check("quotient by a power of two", r[i] == a[i] / 8);
        check("reduction modulo a power of two", m[i] == a[i] % 1024);
    }
    reach("linear operations");
}

fn negacyclic(a: &Coeffs, b: &Coeffs) -> Coeffs {
    let mut c = [0u16; N];
    for k in 0..N {
        let mut s = 0u16;
        for i in 0..=k {
            s = s.wrapping_add(a[i].wrapping_mul(b[k - i]));
        }
        for i in k + 1..N {
            s = s.wrapping_sub(a[i].wrapping_mul(b[N + k - i]));
        }
        c[k] = s;
    }
    c
}

pub fn ring_mul() {
    let (a, b) = (coeffs("a", 16), coeffs("b", 16));
    same("product", &h::mul(&a, &b), &negacyclic(&a, &b), 16);
    reach("product");
}

/// the squares: operands that are the same polynomial
pub fn ring_square() {
    let a = coeffs("a", 16);
    same("square", &h::mul(&a, &a), &negacyclic(&a, &a), 16);
    reach("product");
}

macro_rules! set {
    ($m:ident) => {
        pub mod $m {
            use super::*;
            use ::saber::$m as s;
            use ::saber::$m::verif_hooks as v;
            const K: usize = v::RANK;
            const PK: usize = K * 320 + 32;
            const SK: usize = K * 416 + PK + 64;
            const CT: usize = K * 320 + 32 * (v::DELTA + 1);

            // -------------------------------------------------------- S01

            pub fn vectors() {
                let b = bytes("p", K * 320);
                check("packed vector modulo p", eq(&b, &v::pack_p(&v::unpack_p(&b))));
                let b = bytes("q", K * 416);
                check("packed vector modulo q", eq(&b, &v::pack_q(&v::unpack_q(&b))));
                let c = vect("c", K, 16);
                same_vec("vector modulo p", &c, &v::unpack_p(&v::pack_p(&c)), 10);
                same_vec("vector modulo q", &c, &v::unpack_q(&v::pack_q(&c)), 13);
                reach("vectors");
            }

            pub fn keys() {
                let b = bytes("pk", PK);
                let p = s::PublicKey::from_bytes(&b);
                check("public key of the right length refused", p.is_ok());
                let p = p.ok().unwrap();
                check("public key bytes changed", eq(p.to_bytes().as_slice(), &b));
                let pb = s::PublicKeyBytes::from_bytes(&b).ok().unwrap();
                check("public key bytes changed (newtype)", eq(pb.as_slice(), &b));
                check("public key bytes changed (from newtype)", eq(s::PublicKey::from(&pb).to_bytes().as_slice(), &b));
                let ip = s::INDCPAPublicKey::from_bytes(&b);
                let ib = ip.to_bytes();
                check("IND-CPA public key bytes changed", eq(ib.as_slice(), &b));
                check("IND-CPA public key bytes changed (from newtype)", eq(s::INDCPAPublicKey::from(&ib).to_bytes().as_slice(), &b));
                let (pv, ps) = v::pk_parts(&ip);
                check("seed of the public key", eq(&ps, &b[K * 320..]));
                same_vec("vector of the public key", &pv, &v::unpack_p(&b[..K * 320]), 16);

                let b = bytes("sk", SK);
                let k = s::SecretKey::from_bytes(&b);
                check("secret key of the right length refused", k.is_ok());
                let k = k.ok().unwrap();
                check("secret key bytes changed", eq(k.to_bytes().as_slice(), &b));
                let kb = s::SecretKeyBytes::from_bytes(&b).ok().unwrap();
                check("secret key bytes changed (from newtype)", eq(s::SecretKey::from(&kb).to_bytes().as_slice(), &b));
                let (z, hp, kp, ks) = v::cca_sk_parts(&k);
                check("rejection value of the secret key", eq(&z, &b[SK - 32..]));
                check("public key hash of the secret key", eq(&hp, &b[SK - 64..SK - 32]));
                check("public key of the secret key", eq(kp.to_bytes().as_slice(), &b[K * 416..K * 416 + PK]));
                check("public_key()", eq(k.public_key().to_bytes().as_slice(), &b[K * 416..K * 416 + PK]));
                check("decryption key of the secret key", eq(&v::sk_to_bytes(ks), &b[..K * 416]));
                same_vec("vector of the secret key", &v::sk_vec(ks), &v::unpack_q(&b[..K * 416]), 16);

                let b = bytes("ct", CT);
                let c = s::Ciphertext::from_bytes(&b);
                check("ciphertext of the right length refused", c.is_ok());
                let c = c.ok().unwrap();
                check("ciphertext bytes changed", eq(c.as_slice(), &b));
                check("ciphertext bytes changed (into)", eq(&c.into_bytes(), &b));
                let b = bytes("ss", 32);
                check("shared secret bytes changed", eq(s::SharedSecret::from_bytes(&b).ok().unwrap().as_slice(), &b));
                reach("keys");
            }

            /// objects to bytes and back
            pub fn objects() {
                let (c, d) = (vect("c", K, 10), vect("d", K, 16));
                let (seed, z, hp): ([u8; 32], [u8; 32], [u8; 32]) = (arr("seed"), arr("z"), arr("hp"));
                let pk = v::new_pk(&c, seed);
                let (c1, s1) = v::pk_parts(&s::INDCPAPublicKey::from_bytes(pk.to_bytes().as_slice()));
                same_vec("vector of the public key", &c, &c1, 16);
                check("seed of the public key", eq(&seed, &s1));
                let sk = v::new_cca_sk(z, hp, pk, v::new_sk(&d));
                let k = s::SecretKey::from_bytes(sk.to_bytes().as_slice()).ok().unwrap();
                let (z1, hp1, p1, k1) = v::cca_sk_parts(&k);
                check("rejection value", eq(&z, &z1));
                check("public key hash", eq(&hp, &hp1));
                let (c2, s2) = v::pk_parts(p1);
                same_vec("vector of the public key in the secret key", &c, &c2, 16);
                check("seed of the public key in the secret key", eq(&seed, &s2));
                same_vec("vector of the secret key", &d, &v::sk_vec(k1), 13);
                let pk = v::new_pk(&c, seed);
                let p = s::PublicKey::from_bytes(pk.to_bytes().as_slice()).ok().unwrap();
                same_vec("vector of the public key", &c, &v::pk_parts(v::cca_pk_cpa(&p)).0, 16);
                reach("objects");
            }

            /// every length but the right one is refused with an error
            pub fn lengths() {
                let what = choice("what", 6);
                let right = [PK, SK, CT, K * 416, PK, 32][what];
                let l: [u8; 2] = arr("len");
                let l = u16::from_le_bytes(l) as usize;
                let b = vec![0x5au8; 8192];
                assume(l < 8192);
                assume(l != right);
                let b = unsafe { core::slice::from_raw_parts(b.as_ptr(), l) };
                let r = match what {
                    0 => s::PublicKey::from_bytes(b).is_err(),
                    1 => s::SecretKey::from_bytes(b).is_err(),
                    2 => s::Ciphertext::from_bytes(b).is_err(),
                    3 => v::sk_from_bytes(b).is_err(),
                    4 => s::PublicKeyBytes::from_bytes(b).is_err(),
                    _ => s::SharedSecret::from_bytes(b).is_err(),
                };
                check("wrong length accepted", r);
                reach("wrong length");
            }

            // -------------------------------------------------------- S02

            pub fn products() {
                let (a, b) = (vect("a", K, 16), vect("b", K, 16));
                let mut e = [0u16; N];
                for i in 0..K {
                    let p = h::mul(&a[i], &b[i]);
                    for j in 0..N {
                        e[j] = e[j].wrapping_add(p[j]);
                    }
                }
                same("inner product", &v::dot(&a, &b), &e, 16);
                let t = v::add_vec(&a, &b);
                for i in 0..K {
                    for j in 0..N {
                        check("vector sum", t[i][j] == a[i][j].wrapping_add(b[i][j]));
                    }
                }
                let m: Vec<Vec<Coeffs>> = (0..K).map(|i| vect(&format_name("m", i), K, 16)).collect();
                let (x, y) = (v::mat_mul(&m, &b), v::mat_mul_transpose(&m, &b));
                for i in 0..K {
                    let (mut e, mut f) = ([0u16; N], [0u16; N]);
                    for k in 0..K {
                        let (p, q) = (h::mul(&m[i][k], &b[k]), h::mul(&m[k][i], &b[k]));
                        for j in 0..N {
                            e[j] = e[j].wrapping_add(p[j]);
                            f[j] = f[j].wrapping_add(q[j]);
                        }
                    }
                    same("matrix product", &x[i], &e, 16);
                    same("product with the transposed matrix", &y[i], &f, 16);
                }
                reach("products");
            }

            // -------------------------------------------------------- S03

            /// half the width of the decoding interval
            fn tolerance() -> i32 {
                256 - (1 << (8 - v::DELTA))
            }

            /// the difference modulo p, centred
            fn noise(a: u16, b: u16) -> i32 {
                let d = (a.wrapping_sub(b) & 1023) as i32;
                ((d + 512) & 1023) - 512
            }

            pub fn reconcile() {
                let m = bytes("m", 32);
                let (x, y) = (coeffs("x", 16), coeffs("y", 16));
                let t = tolerance();
                let mut ok = true;
                for i in 0..N {
                    let d = noise(y[i], x[i]);
                    ok &= (d <= t) & (d >= -t);
                }
                assume(ok);
                let rec = v::recon_data_gen(&h::add(&h::from_msg(&m), &x));
                check("length of the reconciliation data", rec.len() == 32 * (v::DELTA + 1));
                let k = v::recon(&rec, &y);
                for i in 0..N {
                    check("message bit not recovered", k[i] == ((m[i / 8] >> (i % 8)) & 1) as u16);
                }
                reach("reconciled");
            }

            /// encryption and decryption, products and noise arbitrary
            pub fn decrypts() {
                let (m, r) = (bytes("m", 32), bytes("r", 32));
                let (c, d) = (vect("c", K, 10), vect("d", K, 16));
                let pk = v::new_pk(&c, arr("seed"));
                let sk = v::new_sk(&d);
                let ct = v::encrypt(&m, &r, &pk);
                let x = v::dot(&c, &v::gen_secret(&r));
                let y = v::dot(&v::unpack_p(&ct.as_slice()[..K * 320]), &d);
                let t = tolerance();
                let mut ok = true;
                for i in 0..N {
                    let d = noise(y[i], x[i]);
                    ok &= (d <= t) & (d >= -t);
                }
                assume(ok);
                let o = v::decrypt(&sk, &ct);
                for i in 0..N {
                    check("message bit not recovered", (o[i / 8] ^ m[i / 8]) >> (i % 8) & 1 == 0);
                }
                reach("decrypted");
            }

            // -------------------------------------------------------- S04

            pub fn eq_mask() {
                let (a, b) = (bytes("a", CT), bytes("b", CT));
                let r = h::bytes_eq_mask(&a, &b);
                if eq(&a, &b) {
                    check("equal strings told apart", r == 0xff);
                    reach("equal");
                } else {
                    check("different strings taken for equal", r == 0);
                    reach("different");
                }
            }

            pub fn decapsulate() {
                os_stream(1);
                let sk = s::keygen();
                os_stream(2);
                let (ss, ct) = s::encapsulate(sk.public_key());
                check("faithful ciphertext", eq(s::decapsulate(&ct, &sk).as_slice(), ss.as_slice()));
                reach("faithful");
                let mut c = ct.as_slice().to_vec();
                mask("alter", &mut c);
                if eq(&c, ct.as_slice()) {
                    return;
                }
                let c = s::Ciphertext::from_bytes(&c).ok().unwrap();
                let o = s::decapsulate(&c, &sk);
                check("altered ciphertext gives the honest secret", !eq(o.as_slice(), ss.as_slice()));
                // the same key with another rejection value
                let (z0, hp, kp, ks) = v::cca_sk_parts(&sk);
                let z: [u8; 32] = arr("z");
                assume(!eq(&z0, &z));
                let k = v::new_cca_sk(z, hp, kp.clone(), ks.clone());
                check("result for an altered ciphertext does not depend on the rejection value", !eq(s::decapsulate(&c, &k).as_slice(), o.as_slice()));
                check("result for a faithful ciphertext depends on the rejection value", eq(s::decapsulate(&ct, &k).as_slice(), ss.as_slice()));
                reach("altered");
            }

            /// decapsulation of any ciphertext whatsoever under any key
            pub fn decaps_any() {
                let (seed, noise): ([u8; 32], [u8; 32]) = (arr("seed"), arr("noise"));
                let (pk, sk) = v::keypair(seed, noise);
                let (z, hp): ([u8; 32], [u8; 32]) = (arr("z"), arr("hp"));
                let full = v::new_cca_sk(z, hp, pk.clone(), sk.clone());
                let ct = s::Ciphertext::from_bytes(&bytes("ct", CT)).ok().unwrap();
                let out = s::decapsulate(&ct, &full);
                let m = v::decrypt(&sk, &ct);
                let kr = sha3_512(&[&hp, &m]);
                let again = v::encrypt(&m, &kr[..32], &pk);
                if eq(again.as_slice(), ct.as_slice()) {
                    let r = sha3_256(&[again.as_slice()]);
                    check("faithful ciphertext", eq(out.as_slice(), &sha3_256(&[&r, &kr[32..]])));
                    reach("faithful");
                } else {
                    check("ciphertext that is not a re-encryption", eq(out.as_slice(), &sha3_256(&[&z, &kr[32..]])));
                    reach("altered");
                }
            }

            /// what encapsulation returns, as a function of its coins
            pub fn encaps() {
                os_stream(1);
                let sk = s::keygen();
                let (z, hp, pk, _) = v::cca_sk_parts(&sk);
                check("hash of the public key", eq(&hp, &sha3_256(&[sk.public_key().to_bytes().as_slice()])));
                check("public key", eq(pk.to_bytes().as_slice(), sk.public_key().to_bytes().as_slice()));
                check("rejection value is the hash", !eq(&z, &hp));
                os_stream(2);
                let (ss, ct) = s::encapsulate(sk.public_key());
                let m = v::decrypt(v::cca_sk_parts(&sk).3, &ct);
                let kr = sha3_512(&[&hp, &m]);
                check("ciphertext is not the encryption with the derived coins", eq(v::encrypt(&m, &kr[..32], pk).as_slice(), ct.as_slice()));
                let r = sha3_256(&[ct.as_slice()]);
                check("encapsulated secret", eq(ss.as_slice(), &sha3_256(&[&r, &kr[32..]])));
                os_stream(3);
                let (s2, c2) = s::encapsulate(sk.public_key());
                check("two encapsulations give the same secret", !eq(s2.as_slice(), ss.as_slice()) & !eq(c2.as_slice(), ct.as_slice()));
                reach("encapsulated");
            }

            // -------------------------------------------------------- S06

            /// matrix and secrets come from consecutive bytes of the extended seed
            pub fn expansion() {
                let seed: [u8; 32] = arr("seed");
                let o = shake128(&seed, K * K * 416);
                let a = v::gen_matrix(&seed);
                check("rows of the matrix", a.len() == K);
                for i in 0..K {
                    for j in 0..K {
                        let n = (i * K + j) * 416;
                        same("matrix entry", &a[i][j], &h::unpack(13, &o[n..n + 416]), 16);
                    }
                }
                let w = v::WIDTH * 32;
                let o = shake128(&seed, K * w);
                let t = v::gen_secret(&seed);
                check("length of the secret", t.len() == K);
                for i in 0..K {
                    same("secret", &t[i], &v::cbd(&o[i * w..i * w + w]).0, 16);
                }
                reach("expanded");
            }

            pub fn key_pair() {
                let (seed, noise): ([u8; 32], [u8; 32]) = (arr("seed"), arr("noise"));
                let (pk, sk) = v::keypair(seed, noise);
                let (b, s1) = v::pk_parts(&pk);
                check("seed of the public key", eq(&seed, &s1));
                let a = v::gen_matrix(&seed);
                let t = v::gen_secret(&noise);
                same_vec("secret vector", &v::sk_vec(&sk), &t, 13);
                for i in 0..K {
                    let e = inner(&a[i], &t);
                    for j in 0..N {
                        check("public vector is not the rounded product", b[i][j] & 1023 == rounded(e[j]));
                    }
                }
                reach("key pair");
            }

            pub fn encryption() {
                let (seed, r): ([u8; 32], [u8; 32]) = (arr("seed"), arr("r"));
                let m = bytes("m", 32);
                let b = vect("b", K, 10);
                let pk = v::new_pk(&b, seed);
                let ct = v::encrypt(&m, &r, &pk);
                let (u, rec) = ct.as_slice().split_at(K * 320);
                let u = v::unpack_p(u);
                let a = v::gen_matrix(&seed);
                let t = v::gen_secret(&r);
                for i in 0..K {
                    let col: Vec<Coeffs> = (0..K).map(|k| a[k][i]).collect();
                    let e = inner(&col, &t);
                    for j in 0..N {
                        check("ciphertext vector is not the rounded product with the transpose", u[i][j] == rounded(e[j]));
                    }
                }
                let x = inner(&b, &t);
                let w = v::DELTA + 1;
                let c = h::unpack([3, 4, 6][K - 2], rec);
                for j in 0..N {
                    let bit = ((m[j / 8] >> (j % 8)) & 1) as u16;
                    let y = x[j].wrapping_add(bit << 9) & 1023;
                    check("message part", c[j] == y >> (10 - w));
                }
                reach("encrypted");
            }

            pub fn decryption() {
                let t = vect("s", K, 16);
                let sk = v::new_sk(&t);
                let ct = s::Ciphertext::from_bytes(&bytes("ct", CT)).ok().unwrap();
                let o = v::decrypt(&sk, &ct);
                let (u, rec) = ct.as_slice().split_at(K * 320);
                let x = inner(&v::unpack_p(u), &t);
                let c = h::unpack([3, 4, 6][K - 2], rec);
                let w = v::DELTA as u32;
                for j in 0..N {
                    let y = x[j].wrapping_sub(c[j] << (9 - w)).wrapping_add(256 - (1 << (8 - w)));
                    check("message bit", (o[j / 8] >> (j % 8)) & 1 == ((y >> 9) & 1) as u8);
                }
                reach("decrypted");
            }

            // -------------------------------------------------------- S05

            pub fn sampler() {
                let mu = v::WIDTH;
                let n = mu * N / 8;
                let b = bytes("b", n + 8);
                let (c, used) = v::cbd(&b);
                check("number of bytes used", used == n);
                let bit = |i: usize| ((b[i / 8] >> (i % 8)) & 1) as u16;
                for i in 0..N {
                    let (mut x, mut y) = (0u16, 0u16);
                    for j in 0..mu / 2 {
                        x += bit(i * mu + j);
                        y += bit(i * mu + mu / 2 + j);
                    }
                    check("not the difference of the bit counts", c[i] == x.wrapping_sub(y));
                }
                reach("sampled");
            }
        }
    };
}
set!(lightsaber);
set!(saber);
set!(firesaber);

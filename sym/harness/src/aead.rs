//! The message encryption layer and the wide-block cipher
use crate::rt::*;
use ::latke::verif_hooks::*;
use crypto_permutation::{DeckFunction, Reader, Writer};
use deck_farfalle::{kravatte::KravatteConfig, Farfalle};

pub const OVER: usize = 44;

pub fn roundtrip(lens: &[usize]) {
    let n = lens[choice("len", lens.len())];
    let key = arr::<64>("key");
    let m = bytes("msg", n);
    let c = auth_encrypt(Rng::new(1), key, &m);
    check("length", c.len() == n + OVER);
    match auth_decrypt(key, &c) {
        Some(p) => check("same message", eq(&p, &m)),
        None => check("accepted", false),
    }
    reach("round trip");
}

pub fn tamper(lens: &[usize]) {
    let n = lens[choice("len", lens.len())];
    let key = arr::<64>("key");
    let m = bytes("msg", n);
    let mut c = auth_encrypt(Rng::new(1), key, &m);
    let kind = choice("kind", 7);
    let mut k2 = key;
    let c = match kind {
        0 => {
            let k = bytes("mask", n + OVER);
            assume(!eq(&k, &vec![0; n + OVER]));
            for (x, y) in c.iter_mut().zip(&k) {
                *x ^= *y;
            }
            c
        }
        1 => {
            // another authentication half
            let o = arr::<32>("mac key");
            assume(!eq(&o, &key[32..]));
            k2[32..].copy_from_slice(&o);
            if choice("other encryption half", 2) == 1 {
                k2[..32].copy_from_slice(&arr::<32>("enc key"));
            }
            c
        }
        2 => {
            // truncated at the end
            let l = c.len();
            let d = pick("cut", &[1, 12, 31, 32, 33, 43]);
            c[..l - d].to_vec()
        }
        3 => {
            // truncated at the front
            let d = pick("cut", &[1, 12, 16, 32, 43]);
            c[d..].to_vec()
        }
        4 => {
            // extended with anything
            let e = bytes("tail", pick("ext", &[1, 12, 32, 44]));
            [&c[..], &e[..]].concat()
        }
        5 => {
            let e = bytes("head", pick("ext", &[1, 12, 32, 44]));
            [&e[..], &c[..]].concat()
        }
        _ => {
            // pieces of two genuine messages
            let m2 = bytes("msg2", n);
            let c2 = auth_encrypt(Rng::new(2), key, &m2);
            let w = choice("pieces", 6) + 1;
            let f = |i: usize| if w >> i & 1 == 1 { &c2 } else { &c };
            [&f(0)[..n], &f(1)[n..n + 12], &f(2)[n + 12..]].concat()
        }
    };
    reach("altered");
    match auth_decrypt(k2, &c) {
        None => reach("rejected"),
        // an empty ciphertext part is shared by both messages
        Some(p) => check("altered message accepted", kind == 6 && n == 0 && eq(&p, &m)),
    }
}

/// inputs that cannot hold a nonce and a tag
pub fn short() {
    let n = choice("len", 44);
    let r = auth_decrypt(arr("key"), &bytes("input", n));
    check("short input accepted", r.is_none());
    reach("short input");
}

/// two encryptions draw two nonces
pub fn nonces() {
    let key = arr::<64>("key");
    let m = bytes("msg", 20);
    let mut r = Rng::new(1);
    let c1 = auth_encrypt(&mut r, key, &m);
    let c2 = auth_encrypt(&mut r, key, &m);
    check("nonce reused", !eq(&c1[20..32], &c2[20..32]));
    check("key stream reused", !eq(&c1[..20], &c2[..20]));
    reach("two encryptions");
}

fn deck(key: &[u8], pre: u8, suf: u8, input: &[u8], n: usize) -> Vec<u8> {
    let mut prf = Farfalle::<KravatteConfig>::init_default(key);
    let mut w = prf.input_writer();
    w.write_bytes(&[pre]).unwrap();
    w.write_bytes(input).unwrap();
    w.write_bytes(&[suf]).unwrap();
    w.finish();
    let mut out = vec![0u8; n];
    prf.output_reader().write_to_slice(&mut out).unwrap();
    out
}

/// Algorithm 5 of the Farfalle paper
fn spec_encrypt(key: &[u8], b: &[u8]) -> Vec<u8> {
    let (mut l, mut r) = (b[..16].to_vec(), b[16..].to_vec());
    let x = |a: &mut [u8], b: &[u8]| {
        for (p, q) in a.iter_mut().zip(b) {
            *p ^= *q
        }
    };
    let h = deck(key, b'h', 0, &l, 16);
    x(&mut r[..16], &h);
    let g = deck(key, b'g', 1, &r, 16);
    x(&mut l, &g);
    let g = deck(key, b'g', 0, &l, r.len());
    x(&mut r, &g);
    let h = deck(key, b'h', 1, &r, 16);
    x(&mut l, &h);
    [l, r].concat()
}

pub fn wide_inverse(lens: &[usize]) {
    let n = lens[choice("len", lens.len())];
    let key = arr::<32>("key");
    let b = bytes("block", n);
    let mut c = b.clone();
    if choice("order", 2) == 0 {
        wide_block_encrypt(&key, &mut c);
        check("changed", !eq(&c, &b));
        wide_block_decrypt(&key, &mut c);
    } else {
        wide_block_decrypt(&key, &mut c);
        wide_block_encrypt(&key, &mut c);
    }
    check("inverse", eq(&c, &b));
    reach("round trip");
}

pub fn wide_spec(lens: &[usize]) {
    let n = lens[choice("len", lens.len())];
    let key = arr::<32>("key");
    let b = bytes("block", n);
    let mut c = b.clone();
    wide_block_encrypt(&key, &mut c);
    check("four-round construction", eq(&c, &spec_encrypt(&key, &b)));
    reach("compared");
}

/// different keys, and different blocks
pub fn wide_keyed(lens: &[usize]) {
    let n = lens[choice("len", lens.len())];
    let (k1, k2) = (arr::<32>("key"), arr::<32>("key2"));
    assume(!eq(&k1, &k2));
    let b = bytes("block", n);
    let mut c = b.clone();
    let mut d = b.clone();
    if choice("direction", 2) == 0 {
        wide_block_encrypt(&k1, &mut c);
        wide_block_encrypt(&k2, &mut d);
    } else {
        wide_block_decrypt(&k1, &mut c);
        wide_block_decrypt(&k2, &mut d);
    }
    check("different keys, same left half", !eq(&c[..16], &d[..16]));
    check("different keys, same right half", !eq(&c[16..], &d[16..]));
    reach("compared");
}

/// a change of any one byte changes both halves, in both directions
pub fn wide_diffusion(lens: &[usize]) {
    let n = lens[choice("len", lens.len())];
    let key = arr::<32>("key");
    let b = bytes("block", n);
    let mut c = b.clone();
    let mut d = b.clone();
    let k = bytes("mask", 1);
    assume(!eq(&k, &[0]));
    d[choice("byte", n)] ^= k[0];
    if choice("direction", 2) == 0 {
        wide_block_encrypt(&key, &mut c);
        wide_block_encrypt(&key, &mut d);
    } else {
        wide_block_decrypt(&key, &mut c);
        wide_block_decrypt(&key, &mut d);
    }
    check("left half unchanged", !eq(&c[..16], &d[..16]));
    check("first 16 bytes of the right half unchanged", !eq(&c[16..32], &d[16..32]));
    check("right half unchanged", !eq(&c[16..], &d[16..]));
    reach("compared");
}

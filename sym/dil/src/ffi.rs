//! The C functions of one parameter set
pub const N: usize = 256;
pub const Q: i32 = 8380417;
pub type Poly = [i32; N];

macro_rules! externs {
    ($p:literal, $($n:ident($($a:ident : $t:ty),*) $(-> $r:ty)?;)*) => {
        extern "C" { $( #[link_name = concat!("PQCLEAN_DILITHIUM", $p, "_", stringify!($n))] pub fn $n($($a:$t),*) $(-> $r)?; )* }
    };
}

macro_rules! set {
    ($m:ident, $p:literal, $k:expr, $l:expr, $eta:expr, $tau:expr, $beta:expr, $g1:expr, $g2:expr, $omega:expr, $ctilde:expr, $etab:expr, $zb:expr, $w1b:expr) => {
        pub mod $m {
            use super::*;
            pub const K: usize = $k;
            pub const L: usize = $l;
            pub const ETA: i32 = $eta;
            pub const TAU: usize = $tau;
            pub const BETA: i32 = $beta;
            pub const GAMMA1: i32 = $g1;
            pub const GAMMA2: i32 = $g2;
            pub const OMEGA: usize = $omega;
            pub const CTILDE: usize = $ctilde;
            pub const ETAB: usize = $etab;
            pub const ZB: usize = $zb;
            pub const W1B: usize = $w1b;
            pub const PK: usize = 32 + K * 320;
            pub const SK: usize = 64 + 64 + (K + L) * ETAB + K * 416;
            pub const SIG: usize = CTILDE + L * ZB + OMEGA + K;
            pub type VecL = [Poly; L];
            pub type VecK = [Poly; K];
            externs! { $p,
                CLEAN_montgomery_reduce(a: i64) -> i32;
                CLEAN_reduce32(a: i32) -> i32;
                CLEAN_caddq(a: i32) -> i32;
                CLEAN_freeze(a: i32) -> i32;
                CLEAN_ntt(a: *mut i32);
                CLEAN_invntt_tomont(a: *mut i32);
                CLEAN_power2round(a0: *mut i32, a: i32) -> i32;
                CLEAN_decompose(a0: *mut i32, a: i32) -> i32;
                CLEAN_make_hint(a0: i32, a1: i32) -> u32;
                CLEAN_use_hint(a: i32, hint: u32) -> i32;
                CLEAN_poly_reduce(a: *mut Poly);
                CLEAN_poly_caddq(a: *mut Poly);
                CLEAN_poly_add(c: *mut Poly, a: *const Poly, b: *const Poly);
                CLEAN_poly_sub(c: *mut Poly, a: *const Poly, b: *const Poly);
                CLEAN_poly_shiftl(a: *mut Poly);
                CLEAN_poly_pointwise_montgomery(c: *mut Poly, a: *const Poly, b: *const Poly);
                CLEAN_poly_power2round(a1: *mut Poly, a0: *mut Poly, a: *const Poly);
                CLEAN_poly_decompose(a1: *mut Poly, a0: *mut Poly, a: *const Poly);
                CLEAN_poly_make_hint(h: *mut Poly, a0: *const Poly, a1: *const Poly) -> u32;
                CLEAN_poly_use_hint(b: *mut Poly, a: *const Poly, h: *const Poly);
                CLEAN_poly_chknorm(a: *const Poly, b: i32) -> i32;
                CLEAN_poly_uniform(a: *mut Poly, seed: *const u8, nonce: u16);
                CLEAN_poly_uniform_eta(a: *mut Poly, seed: *const u8, nonce: u16);
                CLEAN_poly_uniform_gamma1(a: *mut Poly, seed: *const u8, nonce: u16);
                CLEAN_poly_challenge(a: *mut Poly, seed: *const u8);
                CLEAN_polyeta_pack(r: *mut u8, a: *const Poly);
                CLEAN_polyeta_unpack(r: *mut Poly, a: *const u8);
                CLEAN_polyt1_pack(r: *mut u8, a: *const Poly);
                CLEAN_polyt1_unpack(r: *mut Poly, a: *const u8);
                CLEAN_polyt0_pack(r: *mut u8, a: *const Poly);
                CLEAN_polyt0_unpack(r: *mut Poly, a: *const u8);
                CLEAN_polyz_pack(r: *mut u8, a: *const Poly);
                CLEAN_polyz_unpack(r: *mut Poly, a: *const u8);
                CLEAN_polyw1_pack(r: *mut u8, a: *const Poly);
                CLEAN_polyvec_matrix_expand(mat: *mut VecL, rho: *const u8);
                CLEAN_polyvec_matrix_pointwise_montgomery(t: *mut VecK, mat: *const VecL, v: *const VecL);
                CLEAN_polyvecl_uniform_eta(v: *mut VecL, seed: *const u8, nonce: u16);
                CLEAN_polyvecl_uniform_gamma1(v: *mut VecL, seed: *const u8, nonce: u16);
                CLEAN_polyvecl_chknorm(v: *const VecL, bound: i32) -> i32;
                CLEAN_polyveck_uniform_eta(v: *mut VecK, seed: *const u8, nonce: u16);
                CLEAN_polyveck_chknorm(v: *const VecK, bound: i32) -> i32;
                CLEAN_polyveck_make_hint(h: *mut VecK, v0: *const VecK, v1: *const VecK) -> u32;
                CLEAN_polyveck_use_hint(w: *mut VecK, v: *const VecK, h: *const VecK);
                CLEAN_polyveck_pack_w1(r: *mut u8, w1: *const VecK);
                CLEAN_pack_pk(pk: *mut u8, rho: *const u8, t1: *const VecK);
                CLEAN_unpack_pk(rho: *mut u8, t1: *mut VecK, pk: *const u8);
                CLEAN_pack_sk(sk: *mut u8, rho: *const u8, tr: *const u8, key: *const u8, t0: *const VecK, s1: *const VecL, s2: *const VecK);
                CLEAN_unpack_sk(rho: *mut u8, tr: *mut u8, key: *mut u8, t0: *mut VecK, s1: *mut VecL, s2: *mut VecK, sk: *const u8);
                CLEAN_pack_sig(sig: *mut u8, c: *const u8, z: *const VecL, h: *const VecK);
                CLEAN_unpack_sig(c: *mut u8, z: *mut VecL, h: *mut VecK, sig: *const u8) -> i32;
                CLEAN_crypto_sign_keypair_det(coins: *mut u8, pk: *mut u8, sk: *mut u8) -> i32;
                CLEAN_crypto_sign_signature(sig: *mut u8, siglen: *mut usize, m: *const u8, mlen: usize, sk: *const u8) -> i32;
                CLEAN_crypto_sign(sm: *mut u8, smlen: *mut usize, m: *const u8, mlen: usize, sk: *const u8) -> i32;
                CLEAN_crypto_sign_verify(sig: *const u8, siglen: usize, m: *const u8, mlen: usize, pk: *const u8) -> i32;
                CLEAN_crypto_sign_open(m: *mut u8, mlen: *mut usize, sm: *const u8, smlen: usize, pk: *const u8) -> i32;
            }
        }
    };
}
set!(d2, "2", 4, 4, 2, 39, 78, 1 << 17, (Q - 1) / 88, 80, 32, 96, 576, 192);
set!(d3, "3", 6, 5, 4, 49, 196, 1 << 19, (Q - 1) / 32, 55, 48, 128, 640, 128);
set!(d5, "5", 8, 7, 2, 60, 120, 1 << 19, (Q - 1) / 32, 75, 64, 96, 640, 128);

pub fn zero() -> Poly {
    [0; N]
}

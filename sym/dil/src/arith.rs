//! D01, D02: arithmetic on coefficients
use crate::ffi::*;
use crate::rt::*;

pub fn i32v(name: &str) -> i32 {
    i32::from_le_bytes(arr(name))
}

/// a value of an interval
pub fn between(name: &str, lo: i32, hi: i32) -> i32 {
    let x = i32v(name);
    assume((x >= lo) & (x <= hi));
    x
}

macro_rules! arith {
    ($m:ident) => {
        pub mod $m {
            use super::*;
            use crate::ffi::$m::*;

            pub fn montgomery() {
                let a = i64::from_le_bytes(arr("a"));
                let lim = (Q as i64) << 31;
                assume((a >= -lim) & (a < lim));
                let t = unsafe { CLEAN_montgomery_reduce(a) };
                // a - m q is a multiple of 2^32 for m = a q^-1 modulo 2^32 (one multiple of q is left open)
                let m = (a as i32).wrapping_mul(58728449) as i64;
                let p = a - m * Q as i64;
                check("the subtrahend does not clear the low half", p as u32 == 0);
                let u = (p >> 32) as i32;
                check("not congruent to a / 2^32 modulo q", (t == u) | (t == u + Q) | (t == u - Q));
                check("result outside (-q, q)", (t > -Q) & (t < Q));
                reach("montgomery");
            }

            pub fn reduce() {
                let a = i32v("a");
                assume(a <= (1 << 31 - 1) - (1 << 22) - 1 + (1 << 30));
                let t = unsafe { CLEAN_reduce32(a) };
                let k = ((a as i64) + (1 << 22)) >> 23;
                check("reduce32: not congruent modulo q", a as i64 - t as i64 == k * Q as i64);
                check("reduce32: outside [-6283009, 6283008]", (t >= -6283009) & (t <= 6283008));
                reach("reduce32");
                let c = unsafe { CLEAN_freeze(a) };
                let d = c as i64 - (a as i64 - k * Q as i64);
                check("freeze: not congruent modulo q", (d == 0) | (d == Q as i64));
                check("freeze: outside [0, q)", (c >= 0) & (c < Q));
                let c = unsafe { CLEAN_caddq(a) };
                check("caddq", c == if a < 0 { a + Q } else { a });
            }

            // ------------------------------------------------------------ D02

            pub fn power2round() {
                let a = between("a", 0, Q - 1);
                let mut a0 = 0;
                let a1 = unsafe { CLEAN_power2round(&mut a0, a) };
                check("power2round: parts do not add up", a1 * 8192 + a0 == a);
                check("power2round: low part outside its range", (a0 > -4096) & (a0 <= 4096));
                check("power2round: high part outside its range", (a1 >= 0) & (a1 < 1024));
                reach("power2round");
            }

            pub fn decompose() {
                let a = between("a", 0, Q - 1);
                let mut a0 = 0;
                let a1 = unsafe { CLEAN_decompose(&mut a0, a) };
                let m = (Q - 1) / (2 * GAMMA2);
                check("decompose: high part outside its range", (a1 >= 0) & (a1 < m));
                let plain = (a1 * 2 * GAMMA2 + a0 == a) & (a0 > -GAMMA2) & (a0 <= GAMMA2);
                let top = (a1 == 0) & (a0 == a - Q) & (a0 >= -GAMMA2) & (a0 < 0);
                check("decompose: not the centred decomposition", plain | top);
                check("use_hint: changes the high part without a hint", unsafe { CLEAN_use_hint(a, 0) } == a1);
                let b = unsafe { CLEAN_use_hint(a, 1) };
                let e = if a0 > 0 { if a1 == m - 1 { 0 } else { a1 + 1 } } else { if a1 == 0 { m - 1 } else { a1 - 1 } };
                check("use_hint: not the neighbouring high part", b == e);
                reach("decompose");
            }

            /// the verifier's value is the signer's, changed by what the hint accounts for
            pub fn hint() {
                let m = (Q - 1) / (2 * GAMMA2);
                let w = between("w", 0, Q - 1);
                let cs2 = between("cs2", -BETA, BETA);
                let ct0 = between("ct0", -GAMMA2 + 1, GAMMA2 - 1);
                let mut w0 = 0;
                let w1 = unsafe { CLEAN_decompose(&mut w0, w) };
                let low = w0 - cs2;
                assume((low < GAMMA2 - BETA) & (low > -(GAMMA2 - BETA)));
                let h = unsafe { CLEAN_make_hint(low + ct0, w1) };
                check("make_hint: not a bit", h <= 1);
                let mut v = w - cs2 + ct0;
                v = if v < 0 { v + Q } else { v };
                v = if v >= Q { v - Q } else { v };
                let u = unsafe { CLEAN_use_hint(v, h) };
                check("the hint does not restore the high part", u == w1);
                let _ = m;
                reach("hint");
            }

            /// one high and one low part
            pub fn hint_parts() {
                let m = (Q - 1) / (2 * GAMMA2);
                let w1 = between("w1", 0, m - 1);
                let s = between("s", -(2 * GAMMA2 - BETA - 2), 2 * GAMMA2 - BETA - 2);
                let h = unsafe { CLEAN_make_hint(s, w1) };
                check("make_hint: not a bit", h <= 1);
                check("make_hint: wrong bit", (h == 1) == ((s > GAMMA2) | (s < -GAMMA2) | ((s == -GAMMA2) & (w1 != 0))));
                let mut v = w1 * 2 * GAMMA2 + s;
                v = if v < 0 { v + Q } else { v };
                v = if v >= Q { v - Q } else { v };
                let u = unsafe { CLEAN_use_hint(v, h) };
                check("the hint does not restore the high part", u == w1);
                reach("hint");
            }

            /// the polynomial forms apply the coefficient forms everywhere
            pub fn polys() {
                let b = bytes("a", 4 * N);
                let mut a = zero();
                for i in 0..N {
                    a[i] = (u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], 0]) & 0x7fffff) as i32;
                }
                let (mut x, mut y) = (zero(), zero());
                unsafe {
                    CLEAN_poly_power2round(&mut x, &mut y, &a);
                    for i in 0..N {
                        let mut l = 0;
                        let h = CLEAN_power2round(&mut l, a[i]);
                        check("poly_power2round", (h == x[i]) & (l == y[i]));
                    }
                    CLEAN_poly_decompose(&mut x, &mut y, &a);
                    for i in 0..N {
                        let mut l = 0;
                        let h = CLEAN_decompose(&mut l, a[i]);
                        check("poly_decompose", (h == x[i]) & (l == y[i]));
                    }
                    let lb = bytes("l", 4 * N);
                    let mut l = zero();
                    for i in 0..N {
                        l[i] = i32::from_le_bytes([lb[4 * i], lb[4 * i + 1], lb[4 * i + 2], lb[4 * i + 3]]);
                    }
                    CLEAN_poly_reduce(&mut l);
                    let mut c = l;
                    CLEAN_poly_caddq(&mut c);
                    for i in 0..N {
                        let o = i32::from_le_bytes([lb[4 * i], lb[4 * i + 1], lb[4 * i + 2], lb[4 * i + 3]]);
                        check("poly_reduce", l[i] == CLEAN_reduce32(o));
                        check("poly_caddq", c[i] == CLEAN_caddq(l[i]));
                    }
                }
                reach("polynomials");
            }

            /// hints of polynomials: one symbolic coefficient among concrete ones
            pub fn poly_hints() {
                let p = [0, 1, 127, 255][choice("at", 4)];
                let m = (Q - 1) / (2 * GAMMA2);
                let (mut a, mut l, mut w, mut h) = (zero(), zero(), zero(), zero());
                for i in 0..N {
                    a[i] = (i as i32 * 32749 + 7) % Q;
                    l[i] = [0, GAMMA2 + 1, -GAMMA2, GAMMA2, -GAMMA2 - 1][i % 5];
                    w[i] = (i as i32 * 7) % m;
                    h[i] = ((i / 3) & 1) as i32;
                }
                a[p] = between("a", 0, Q - 1);
                l[p] = i32v("l");
                w[p] = between("w", 0, m - 1);
                h[p] = between("h", 0, 1);
                let mut x = zero();
                unsafe {
                    CLEAN_poly_use_hint(&mut x, &a, &h);
                    for i in 0..N {
                        check("poly_use_hint", x[i] == CLEAN_use_hint(a[i], h[i] as u32));
                    }
                    let n = CLEAN_poly_make_hint(&mut x, &l, &w);
                    let mut s = 0u32;
                    for i in 0..N {
                        let e = CLEAN_make_hint(l[i], w[i]);
                        check("poly_make_hint", x[i] as u32 == e);
                        s += e;
                    }
                    check("poly_make_hint: number of hints", s == n);
                }
                reach("hints");
            }

            /// hints of vectors
            pub fn vec_hints() {
                let p = choice("poly", K);
                let m = (Q - 1) / (2 * GAMMA2);
                let (mut l, mut w, mut h) = ([zero(); K], [zero(); K], [[7; N]; K]);
                for k in 0..K {
                    for i in 0..N {
                        l[k][i] = [0, GAMMA2 + 1, -GAMMA2, GAMMA2, -GAMMA2 - 1][(i + k) % 5];
                        w[k][i] = (i as i32 * 7 + k as i32) % m;
                    }
                }
                l[p][200] = i32v("l");
                w[p][200] = between("w", 0, m - 1);
                let n = unsafe { CLEAN_polyveck_make_hint(&mut h, &l, &w) };
                let mut s = 0;
                for k in 0..K {
                    for i in 0..N {
                        let e = unsafe { CLEAN_make_hint(l[k][i], w[k][i]) };
                        check("polyveck_make_hint", h[k][i] as u32 == e);
                        s += e;
                    }
                }
                check("polyveck_make_hint: number of hints", s == n);
                let mut a = [zero(); K];
                for k in 0..K {
                    for i in 0..N {
                        a[k][i] = ((i * K + k) as i32 * 4093 + 7) % Q;
                    }
                }
                let mut u = [zero(); K];
                unsafe { CLEAN_polyveck_use_hint(&mut u, &a, &h) };
                for k in 0..K {
                    for i in 0..N {
                        check("polyveck_use_hint", u[k][i] == unsafe { CLEAN_use_hint(a[k][i], h[k][i] as u32) });
                    }
                }
                reach("hints");
            }

            /// the norm check refuses exactly the polynomials with a coefficient of at least the bound
            pub fn norm() {
                let i = [0, 1, 128, 255][choice("at", 4)];
                let bound = [GAMMA1 - BETA, GAMMA2 - BETA, GAMMA2, (Q - 1) / 8, (Q - 1) / 8 + 1][choice("bound", 5)];
                let x = between("x", -6283009, 6283008);
                let y = between("y", -bound + 1, bound - 1);
                let mut a = [y; N];
                a[i] = x;
                let r = unsafe { CLEAN_poly_chknorm(&a, bound) };
                let big = (x >= bound) | (x <= -bound) | (bound > (Q - 1) / 8);
                check("norm check", (r != 0) == big);
                reach("norm");
            }

            /// vectors: one coefficient of one polynomial of it
            pub fn norm_vec() {
                let bound = GAMMA2 - BETA;
                let x = between("x", -6283009, 6283008);
                let big = (x >= bound) | (x <= -bound);
                let k = choice("k", 2);
                let p = choice("poly", if k == 1 { K } else { L });
                let i = 255 - p * 37 % 256;
                let r = if k == 1 {
                    let mut v = [[bound - 1; N]; K];
                    v[p][i] = x;
                    unsafe { CLEAN_polyveck_chknorm(&v, bound) }
                } else {
                    let mut v = [[1 - bound; N]; L];
                    v[p][i] = x;
                    unsafe { CLEAN_polyvecl_chknorm(&v, bound) }
                };
                check("norm check of a vector", (r != 0) == big);
                reach("norm");
            }
        }
    };
}
arith!(d2);
arith!(d3);
arith!(d5);

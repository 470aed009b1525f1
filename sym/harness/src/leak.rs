//! No message contains a secret (P20).  Passwords, identities and all randomness are random
//! values here; a message contains a secret if sixteen consecutive bytes of it occur in it.
use crate::ibke::*;
use crate::latke_s::{latke_loop, LatkeP, PInfo};
use crate::proto::*;
use crate::rt::*;
use ::latke::chip::Chip;
use ::latke::latke::{Latke, PeerModel};
use ::latke::{verif_hooks, AsBytes, Id};
use curve25519_dalek::scalar::{clamp_integer, Scalar};
use rand_core::RngCore;

fn random<const N: usize>(stream: u64) -> [u8; N] {
    let mut x = [0u8; N];
    Rng::new(stream).fill_bytes(&mut x);
    x
}

fn scan(msgs: &[Vec<u8>], what: &str, s: &[u8]) {
    let mut at: Vec<usize> = (0..s.len() / 16).map(|i| 16 * i).take(6).collect();
    if s.len() % 16 != 0 {
        at.push(s.len() - 16);
    }
    let mut bad = false;
    for m in msgs {
        for a in &at {
            bad |= contains(m, &s[*a..*a + 16]);
        }
    }
    check(what, !bad);
}

fn start() {
    log_draws();
    verif_hooks::record_secrets();
}

/// `public`: streams whose draws are sent (nonces)
fn finish(msgs: &[Vec<u8>], pw: &[u8], keys: &[&[u8]], public: &[u64], min: usize) {
    scan(msgs, "a message contains the password", pw);
    for k in keys {
        scan(msgs, "a message contains a session key", k);
    }
    let h = verif_hooks::secrets();
    if h.len() >= min {
        reach("internal secrets recorded");
    }
    for k in &h {
        scan(msgs, "a message contains a derived key", k);
    }
    for (s, d) in draws() {
        if d.len() < 16 || public.contains(&s) || s >= 500 {
            continue;
        }
        scan(msgs, "a message contains random bytes of a private value", &d);
        if d.len() == 64 {
            let mut w = [0u8; 64];
            w.copy_from_slice(&d);
            scan(msgs, "a message contains a private scalar", Scalar::from_bytes_mod_order_wide(&w).as_bytes());
        }
        if d.len() == 32 {
            let mut w = [0u8; 32];
            w.copy_from_slice(&d);
            scan(msgs, "a message contains a private scalar", &clamp_integer(w));
        }
    }
    reach("messages scanned");
}

pub fn pake<P: PInfo>(min: usize) {
    let pw = random::<16>(500);
    let ssid = random::<32>(501);
    start();
    let mut a = PakeP::<P>::new(1, ssid, &pw, I_);
    let mut b = PakeP::<P>::new(2, ssid, &pw, R_);
    let mut ms = Vec::new();
    exchange(&mut a, &mut b, |_, m| ms.push(m.clone()), |_, _, _| ());
    finish(&ms, &pw, &[&a.key(), &b.key()], &[], min)
}

pub fn ibke<I: Info>(min: usize) {
    start();
    let (mpk, msk) = I::gen_main_keypair(Rng::new(10));
    let a = User::<I>::new(11, &msk, random(500));
    let b = User::<I>::new(12, &msk, random(501));
    let ssid = random(502);
    let mut sa = a.session(1, &mpk, ssid, I_);
    let mut sb = b.session(2, &mpk, ssid, R_);
    let mut ms = Vec::new();
    exchange(&mut sa, &mut sb, |_, m| ms.push(m.clone()), |_, _, _| ());
    let (ra, rb) = (sa.result(), sb.result());
    let (none, sess): (&[u64], &[u64]) = (&[], &[1, 2]);
    // SIGMA-R sends the nonces its sessions draw
    finish(&ms, &random::<16>(503), &[&ra.1, &rb.1], if I::MSGS == 4 { sess } else { none }, min)
}

pub fn latke<I: Info, P: PInfo>(min: usize) {
    start();
    let pw = random::<16>(500);
    let (ida, idb): (Id, Id) = (random(501), random(502));
    let ssid = random(503);
    let fa = Latke::<I, P>::gen_pwfile(Rng::new(11), &pw, &ida);
    let fb = Latke::<I, P>::gen_pwfile(Rng::new(12), &pw, &idb);
    let (pa, pb) = if choice("peer model", 2) == 0 { (PeerModel::PreSpecified(idb), PeerModel::PreSpecified(ida)) } else { (PeerModel::PostSpecified, PeerModel::PostSpecified) };
    let mut a = LatkeP::<I, P>::new(1, ssid, &fa, I_, pa);
    let mut b = LatkeP::<I, P>::new(2, ssid, &fb, R_, pb);
    let mut ms = Vec::new();
    latke_loop(&mut a, &mut b, |_, m| ms.push(m.clone()), |_, _, _| ());
    let (ra, rb) = (a.0.finalize(), b.0.finalize());
    scan(&ms, "a message contains an identity", &ida);
    scan(&ms, "a message contains an identity", &idb);
    scan(&ms, "a message contains the main public key", &fa.verif_parts().0.as_bytes()[..32]);
    if I::UPK != 0 {
        for f in [&fa, &fb] {
            let c = I::cert_bytes(f.verif_parts().1);
            scan(&ms, "a message contains a user public key", &c[32..64]);
            let n = c.len();
            scan(&ms, "a message contains a certificate", &c[n - 64..]);
        }
    }
    finish(&ms, &pw, &[&ra.1, &rb.1], if I::MSGS == 4 { &[1, 2] } else { &[] }, min)
}

pub fn chip<P: PInfo>(min: usize) {
    start();
    let pw = random::<16>(500);
    let (ida, idb): (Id, Id) = (random(501), random(502));
    let ssid = random(503);
    let fa = Chip::<P>::gen_pwfile(Rng::new(11), pw.to_vec(), ida);
    let fb = Chip::<P>::gen_pwfile(Rng::new(12), pw.to_vec(), idb);
    let (mut ra, mut rb) = (Rng::new(1), Rng::new(2));
    let mut a = Chip::<P>::new_session(&mut ra, ssid, fa, I_, idb);
    let mut b = Chip::<P>::new_session(&mut rb, ssid, fb, R_, ida);
    let mut ms: Vec<Vec<u8>> = Vec::new();
    let mut m = Some(Vec::new());
    let mut i = 0;
    while let Some(x) = m {
        m = if i % 2 == 0 { a.run(&mut ra, &x) } else { b.run(&mut rb, &x) }.unwrap();
        ms.extend(m.clone());
        i += 1;
    }
    finish(&ms, &pw, &[&a.finalize(), &b.finalize()], &[], min)
}

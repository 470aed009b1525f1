//! The encrypt-and-unconditionally-execute transform
use crate::aead::OVER;
use crate::ibke::*;
use crate::proto::*;
use crate::rt::*;
use ::latke::verif_hooks::Eue;
use ::latke::{Id, PartyRole, SessKey, Ssid};

pub struct EueP<I: Info>(pub Eue<I>, pub Rng);

impl<I: Info> EueP<I> {
    pub fn new(u: &User<I>, stream: u64, mpk: &I::MainPubkey, ssid: Ssid, role: PartyRole, key: [u8; 32]) -> Self {
        let mut r = Rng::new(stream);
        EueP(Eue::new_session(&mut r, ssid, mpk.clone(), u.cert.clone(), u.usk.clone(), role, key), r)
    }
    pub fn result(&self) -> (Id, SessKey) {
        self.0.finalize()
    }
}

impl<I: Info> Party for EueP<I> {
    fn step(&mut self, m: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        self.0.run(&mut self.1, m).map_err(|_| ())
    }
    fn done(&self) -> bool {
        self.0.is_done()
    }
}

/// last step of each role
fn last(msgs: usize) -> (usize, usize) {
    if msgs % 2 == 0 {
        (msgs, msgs - 1)
    } else {
        (msgs - 1, msgs)
    }
}

pub fn honest<I: Info>() {
    let w = world::<I>();
    let key: [u8; 32] = arr("initial key");
    let mut a = EueP::new(&w.a, 1, &w.mpk, w.ssid, I_, key);
    let mut b = EueP::new(&w.b, 2, &w.mpk, w.ssid, R_, key);
    let (la, lb) = last(I::MSGS);
    let mut nonces: Vec<Vec<u8>> = Vec::new();
    let o = exchange(
        &mut a,
        &mut b,
        |i, m| {
            check("message length", m.len() == I::LENS[i] + OVER);
            let n = m[I::LENS[i]..I::LENS[i] + 12].to_vec();
            for x in &nonces {
                check("nonce reused", !eq(x, &n));
            }
            nonces.push(n);
        },
        |i, da, db| {
            check("initiator completes exactly at its last step", da == (i >= la));
            check("responder completes exactly at its last step", db == (i >= lb));
        },
    );
    check("no error", !o.a_err && !o.b_err);
    check("number of messages", o.msgs == I::MSGS);
    let (ra, rb) = (a.result(), b.result());
    check("same session key", eq(&ra.1, &rb.1));
    check("identities", eq(&ra.0, &w.b.id) & eq(&rb.0, &w.a.id));
    reach("honest run completed");
}

/// Result must not be available now
fn no_result<I: Info>(v: &EueP<I>) {
    must_panic("a failed encrypted session released a result", || v.result());
}

/// Drives the victim alone to its end after the failure at its step `i`; `r` is the outcome of
/// that step
fn drive<I: Info>(v: &mut EueP<I>, vrole: PartyRole, mut i: usize, mut r: Result<Option<Vec<u8>>, ()>, stop: usize, last: &mut Vec<u8>) {
    let (la, lb) = last_of(I::MSGS);
    let lv = if vrole == I_ { la } else { lb };
    loop {
        let Ok(o) = &r else {
            check("the failed session reports an error", false);
            return;
        };
        match o {
            Some(m) => {
                check("the failed session stops sending", i < I::MSGS);
                check("length of a simulated message", m.len() == I::LENS[i] + OVER);
                *last = m.clone();
            }
            None => check("the failed session does not send", i >= I::MSGS),
        }
        check("the failed session completes at the honest step", v.done() == (i >= lv));
        if i >= lv {
            break;
        }
        if i == stop {
            no_result(v);
        }
        i += 2;
        // whatever comes in
        let n = I::LENS[i - 1] + OVER;
        let m = match choice(["next0", "next1", "next2", "next3", "next4", "next5"][i], 3) {
            0 => bytes(["j0", "j1", "j2", "j3", "j4", "j5"][i], n),
            1 => Vec::new(),
            _ => last.clone(),
        };
        r = v.step(&m);
    }
    reach("the failed session ran to its end");
    no_result(v);
}

fn last_of(m: usize) -> (usize, usize) {
    last(m)
}

/// Message `at` (of the session) does not decrypt; the receiver goes on alone
pub fn fail<I: Info>(at: usize) {
    let w = world::<I>();
    let key: [u8; 32] = arr("initial key");
    let mut a = EueP::new(&w.a, 1, &w.mpk, w.ssid, I_, key);
    let mut b = EueP::new(&w.b, 2, &w.mpk, w.ssid, R_, key);
    let mut m: Vec<u8> = Vec::new();
    for i in 0..=at {
        let v = if i % 2 == 0 { &mut a } else { &mut b };
        m = v.step(&m).unwrap().unwrap();
    }
    let n = m.len();
    match choice("kind", 5) {
        0 => {
            let k = bytes("mask", n);
            assume(!eq(&k, &vec![0; n]));
            for (x, y) in m.iter_mut().zip(&k) {
                *x ^= *y;
            }
        }
        1 => m.truncate(pick("cut", &[0, 1, 43, 44, 45])),
        2 => {
            m.pop();
        }
        3 => m.extend(bytes("tail", 1)),
        _ => m = bytes("junk", n),
    }
    let i = at + 1;
    let (v, vrole) = if i % 2 == 0 { (&mut a, I_) } else { (&mut b, R_) };
    let r = v.step(&m);
    reach("altered message delivered");
    let stop = if choice("ask early", 2) == 0 { i } else { 99 };
    drive(v, vrole, i, r, stop, &mut m);
}

/// Different initial keys or subsession ids: the first receiver accepts nothing
pub fn mismatch<I: Info>() {
    let w = world::<I>();
    let k1: [u8; 32] = arr("initial key");
    let (mut k2, mut s2) = (k1, w.ssid);
    match choice("kind", 2) {
        0 => {
            k2 = arr("initial key 2");
            assume(!eq(&k1, &k2));
        }
        _ => {
            s2 = arr("ssid2");
            assume(!eq(&w.ssid, &s2));
        }
    }
    let mut a = EueP::new(&w.a, 1, &w.mpk, w.ssid, I_, k1);
    let mut b = EueP::new(&w.b, 2, &w.mpk, s2, R_, k2);
    let o = exchange(&mut a, &mut b, |i, m| check("message length", m.len() == I::LENS[i] + OVER), |_, _, _| ());
    check("no error", !o.a_err && !o.b_err);
    check("both complete", a.done() && b.done());
    reach("mismatched run completed");
    no_result(if choice("who", 2) == 0 { &a } else { &b });
}

/// Instead of message `at` its receiver gets another message of this session, or of an earlier
/// session under the same keys
pub fn replay<I: Info>(at: usize) {
    let w = world::<I>();
    let key: [u8; 32] = arr("initial key");
    let mut a = EueP::new(&w.a, 1, &w.mpk, w.ssid, I_, key);
    let mut b = EueP::new(&w.b, 2, &w.mpk, w.ssid, R_, key);
    let mut old: Vec<Vec<u8>> = Vec::new();
    let mut m: Vec<u8> = Vec::new();
    for i in 0..=at {
        let v = if i % 2 == 0 { &mut a } else { &mut b };
        m = v.step(&m).unwrap().unwrap();
        old.push(m.clone());
    }
    // the genuine one is old[at]
    let c = choice("which", at + (I::MSGS - at - 1));
    let i = at + 1;
    let cand;
    if c < at {
        cand = old[c].clone();
    } else {
        // a later message of another session with the same keys in which everything is honest
        let mut a2 = EueP::new(&w.a, 3, &w.mpk, w.ssid, I_, key);
        let mut b2 = EueP::new(&w.b, 4, &w.mpk, w.ssid, R_, key);
        let mut rec: Vec<Vec<u8>> = Vec::new();
        exchange(&mut a2, &mut b2, |_, m| rec.push(m.clone()), |_, _, _| ());
        cand = rec[c + 1].clone();
    }
    m = cand;
    let (v, vrole) = if i % 2 == 0 { (&mut a, I_) } else { (&mut b, R_) };
    let r = v.step(&m);
    reach("message delivered out of place");
    drive(v, vrole, i, r, 99, &mut m);
}

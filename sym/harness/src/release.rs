//! When a session may give out its result (P19)
use crate::ibke::{other, role, world, Info, I_, R_};
use crate::proto::*;
use crate::rt::*;
use ::latke::{Pake, PartyRole};

/// The own steps of the role are start, start + 2, ..; step `msgs` and `msgs - 1` are the last
fn start(r: PartyRole) -> usize {
    if r == I_ {
        0
    } else {
        1
    }
}

fn last(r: PartyRole, msgs: usize) -> usize {
    if msgs % 2 == start(r) {
        msgs
    } else {
        msgs - 1
    }
}

/// Runs the first `k` steps honestly and asks a party that is not through for its result
fn early<A: Party, B: Party>(mut a: A, mut b: B, msgs: usize, fa: impl FnOnce(&A), fb: impl FnOnce(&B)) {
    let who = role("who");
    let k = choice("steps", msgs + 1);
    let mut m: Vec<u8> = Vec::new();
    for i in 0..k {
        let r = if i % 2 == 0 { a.step(&m) } else { b.step(&m) };
        check("completion is reported from the last step on", a.done() == (i >= last(I_, msgs)) && b.done() == (i >= last(R_, msgs)));
        match r {
            Ok(Some(x)) => m = x,
            _ => {
                check("an honest step failed", false);
                return;
            }
        }
    }
    let through = k > last(who, msgs);
    check("completion", through == if who == I_ { a.done() } else { b.done() });
    if through {
        return;
    }
    reach("result asked too early");
    if who == I_ {
        must_panic("key released too early", || fa(&a))
    } else {
        must_panic("key released too early", || fb(&b))
    }
}

/// Delivers message `at` altered; if its receiver reports an error it has no result, whether
/// asked at once or after another altered message
fn failed<A: Party, B: Party>(mut a: A, mut b: B, at: usize, sim: impl FnOnce(&mut A, &mut B, bool), fa: impl FnOnce(&A), fb: impl FnOnce(&B)) {
    let mut m: Vec<u8> = Vec::new();
    for i in 0..=at {
        m = if i % 2 == 0 { a.step(&m) } else { b.step(&m) }.unwrap().unwrap();
    }
    let good = m.clone();
    let what = choice("what", 3);
    match what {
        0 => mask("mask", &mut m),
        1 => {
            m.pop();
        }
        _ => m.extend(bytes("more", 1)),
    }
    panic_ok(true);
    let to_b = at % 2 == 0;
    let r = if to_b { b.step(&m) } else { a.step(&m) };
    if r.is_ok() {
        return;
    }
    reach("error reported");
    check("completed although the step failed", !if to_b { b.done() } else { a.done() });
    match choice("then", 3) {
        0 => (),
        1 => {
            // again another message
            let mut m2 = good.clone();
            let k = bytes("mask2", m2.len());
            for (x, y) in m2.iter_mut().zip(&k) {
                *x ^= *y;
            }
            let r = if to_b { b.step(&m2) } else { a.step(&m2) };
            if r.is_ok() {
                return;
            }
            check("completed although the step failed", !if to_b { b.done() } else { a.done() });
            reach("error reported twice");
        }
        _ => sim(&mut a, &mut b, to_b),
    }
    if to_b {
        must_panic("key released after an error", || fb(&b))
    } else {
        must_panic("key released after an error", || fa(&a))
    }
}

fn pakes<P: Pake>() -> (PakeP<P>, PakeP<P>) {
    let pw = bytes("pw", 5);
    let ssid = arr("ssid");
    (PakeP::new(1, ssid, &pw, I_), PakeP::new(2, ssid, &pw, R_))
}

fn pk<P: Pake>(p: &PakeP<P>) {
    p.key();
}

pub fn early_pake<P: Pake>(msgs: usize) {
    let (a, b) = pakes::<P>();
    early(a, b, msgs, pk, pk)
}

pub fn failed_pake<P: Pake>(msgs: usize) {
    let (a, b) = pakes::<P>();
    failed(a, b, choice("message", msgs), |_, _, _| (), pk, pk)
}

fn ik<I: Info>(p: &IbkeP<I>) {
    p.result();
}

pub fn early_ibke<I: Info>() {
    let w = world::<I>();
    let a = w.a.session(1, &w.mpk, w.ssid, I_);
    let b = w.b.session(2, &w.mpk, w.ssid, R_);
    early(a, b, I::MSGS, ik, ik)
}

fn sim_to_end<I: Info>(p: &mut IbkeP<I>, mut i: usize, r: PartyRole) {
    let l = last(r, I::MSGS);
    check("completed before the last step", !p.done());
    while i <= l {
        let n = p.0.run_sim();
        check("length of the simulated message", if i < I::MSGS { n == Some(I::LENS[i]) } else { n.is_none() });
        check("completion is reported from the last simulated step on", p.done() == (i == l));
        i += 2;
    }
    reach("simulated to the end");
}

pub fn failed_ibke<I: Info>() {
    let w = world::<I>();
    let a = w.a.session(1, &w.mpk, w.ssid, I_);
    let b = w.b.session(2, &w.mpk, w.ssid, R_);
    let at = choice("message", I::MSGS);
    failed(
        a,
        b,
        at,
        |a, b, to_b| {
            if to_b {
                sim_to_end(b, at + 1, R_)
            } else {
                sim_to_end(a, at + 1, I_)
            }
        },
        ik,
        ik,
    )
}

/// Some honest steps, simulated ones from there on
pub fn sim<I: Info>() {
    let w = world::<I>();
    let r = role("who");
    let mut a = w.a.session(1, &w.mpk, w.ssid, r);
    let mut b = w.b.session(2, &w.mpk, w.ssid, other(r));
    let real = choice("real steps", (I::MSGS + 2) / 2);
    let s = start(r);
    let from = s + 2 * real;
    if from > last(r, I::MSGS) {
        return;
    }
    let mut m: Vec<u8> = Vec::new();
    // steps 0 .. from - 2 are real
    for i in 0..from.saturating_sub(1) {
        m = if i % 2 == s { a.step(&m) } else { b.step(&m) }.unwrap().unwrap();
    }
    sim_to_end(&mut a, from, r);
    must_panic("key released by a simulated session", || ik(&a))
}

use crate::proto::*;
use crate::rt::*;
use ::latke::{pake::kc_spake2::KcSpake2, Pake, PartyRole};

const PWLENS: [usize; 6] = [0, 1, 5, 33, 65, 130];

/// Honest run: `msgs` messages, both complete at their own last step, equal keys
pub fn honest<P: Pake>(msgs: usize) {
    let n = pick("pwlen", &PWLENS);
    let pw = bytes("pw", n);
    let ssid = arr("ssid");
    let mut a = PakeP::<P>::new(1, ssid, &pw, PartyRole::Initiator);
    let mut b = PakeP::<P>::new(2, ssid, &pw, PartyRole::Responder);
    // steps 0..=msgs are executed; step `msgs` receives the last message
    let (la, lb) = if msgs % 2 == 0 { (msgs, msgs - 1) } else { (msgs - 1, msgs) };
    let o = exchange(&mut a, &mut b, |_, _| (), |i, da, db| {
        check("initiator completes exactly at its last step", da == (i >= la));
        check("responder completes exactly at its last step", db == (i >= lb));
    });
    check("no error", !o.a_err && !o.b_err);
    check("number of messages", o.msgs == msgs);
    check("initiator done", a.done());
    check("responder done", b.done());
    check("same session key", eq(&a.key(), &b.key()));
    reach("honest run completed");
}

/// Different passwords or different ssids: never the same key
pub fn mismatch<P: Pake>(confirms: bool) {
    let (pa, pb, sa, sb);
    match choice("kind", 2) {
        0 => {
            // same ssid, passwords of possibly different lengths
            sa = arr("ssid");
            sb = sa;
            let (na, nb) = pick("lens", &[(5, 5), (0, 1), (1, 0), (4, 5), (5, 4), (33, 32), (65, 65)]);
            pa = bytes("pwa", na);
            pb = bytes("pwb", nb);
            assume(!eq(&pa, &pb));
        }
        _ => {
            sa = arr::<32>("ssida");
            sb = arr::<32>("ssidb");
            assume(!eq(&sa, &sb));
            let n = pick("pwlen", &[0, 5, 33]);
            pa = bytes("pw", n);
            pb = pa.clone();
        }
    }
    let mut a = PakeP::<P>::new(1, sa, &pa, PartyRole::Initiator);
    let mut b = PakeP::<P>::new(2, sb, &pb, PartyRole::Responder);
    panic_ok(true);
    let o = exchange(&mut a, &mut b, |_, _| (), |_, _, _| ());
    reach("mismatched run ended");
    if confirms {
        check("the initiator detects the mismatch", o.a_err && !a.done() && !b.done());
    } else if a.done() && b.done() {
        check("keys differ", !eq(&a.key(), &b.key()));
        reach("mismatched run completed");
    }
}

/// KC-SPAKE2: altered messages
pub fn tamper() {
    let pw = bytes("pw", 5);
    let ssid = arr("ssid");
    let mut a = PakeP::<KcSpake2>::new(1, ssid, &pw, PartyRole::Initiator);
    let mut b = PakeP::<KcSpake2>::new(2, ssid, &pw, PartyRole::Responder);
    let k0 = bytes("mask0", 33);
    let k1 = bytes("mask1", 65);
    let k2 = bytes("mask2", 32);
    let honest = eq(&k0, &[0; 33]) & eq(&k1, &[0; 65]) & eq(&k2, &[0; 32]);
    panic_ok(true);
    let mut late = false;
    let o = exchange(
        &mut a,
        &mut b,
        |i, m| {
            let k: &[u8] = match i {
                0 => &k0,
                1 => &k1,
                _ => &k2,
            };
            for (x, y) in m.iter_mut().zip(k) {
                *x ^= *y;
            }
        },
        |_, _, db| late |= db,
    );
    reach("altered run ended");
    let both = a.done() && b.done();
    if both {
        check("both completed on altered messages", honest);
        check("same key", eq(&a.key(), &b.key()));
        reach("both completed");
    }
    if a.done() {
        check("the initiator completed on altered messages", eq(&k0, &[0; 33]) & eq(&k1, &[0; 65]));
        reach("initiator completed");
    }
    check("an error is reported unless both completed", both || o.a_err || o.b_err);
}

/// KC-SPAKE2: a party's own values sent back to it
pub fn reflect() {
    let pw = bytes("pw", 5);
    let ssid = arr("ssid");
    let mut a = PakeP::<KcSpake2>::new(1, ssid, &pw, PartyRole::Initiator);
    let mut b = PakeP::<KcSpake2>::new(2, ssid, &pw, PartyRole::Responder);
    let m0 = a.step(&[]).unwrap().unwrap();
    panic_ok(true);
    match choice("kind", 3) {
        0 => {
            // the responder's own confirmation value comes back to it
            let m1 = b.step(&m0).unwrap().unwrap();
            let r = b.step(&m1[33..]);
            reach("reflected to the responder");
            check("own confirmation value accepted", r.is_err() && !b.done());
        }
        1 => {
            // the initiator's own share comes back, with any confirmation value
            let mut m = m0.clone();
            m.extend(bytes("mac", 32));
            let r = a.step(&m);
            reach("reflected to the initiator");
            check("own share accepted", r.is_err() && !a.done());
        }
        _ => {
            // two responders driven against each other's shares
            let mut c = PakeP::<KcSpake2>::new(3, ssid, &pw, PartyRole::Responder);
            let mb0 = b.step(&m0).unwrap().unwrap();
            let mc = c.step(&mb0[..33]).unwrap().unwrap();
            // c's confirmation value handed to b, and the other way round
            let r = b.step(&mc[33..]);
            reach("two responders");
            check("a responder's confirmation value accepted by a responder", r.is_err() && !b.done());
            let r = c.step(&mb0[33..]);
            check("a responder's confirmation value accepted by a responder", r.is_err() && !c.done());
        }
    }
}

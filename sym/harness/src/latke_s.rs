//! LATKE and CHIP
use crate::aead::OVER;
use crate::ibke::*;
use crate::proto::*;
use crate::rt::*;
use ::latke::chip::{Chip, ChipPwfile};
use ::latke::latke::{Latke, LatkePwfile, PeerModel};
use ::latke::{AsBytes, Id, IdCertificate, Pake, PartyRole, SessKey, Ssid};

pub trait PInfo: Pake {
    const LENS: &'static [usize];
}
impl PInfo for ::latke::pake::kc_spake2::KcSpake2 {
    const LENS: &'static [usize] = &[33, 65, 32];
}
impl PInfo for ::latke::pake::cake::Cake {
    const LENS: &'static [usize] = &[672, 736];
}
impl PInfo for ::latke::pake::cpace::Cpace {
    const LENS: &'static [usize] = &[48, 32];
}

pub struct LatkeP<I: Info, P: PInfo>(pub Latke<I, P>, pub Rng);

impl<I: Info, P: PInfo> LatkeP<I, P> {
    pub fn new(stream: u64, ssid: Ssid, f: &LatkePwfile<I>, role: PartyRole, peer: PeerModel) -> Self {
        let mut r = Rng::new(stream);
        LatkeP(Latke::new_session(&mut r, ssid, f.clone(), role, peer), r)
    }
}

impl<I: Info, P: PInfo> Party for LatkeP<I, P> {
    fn step(&mut self, m: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        Ok(self.0.run(&mut self.1, m))
    }
    fn done(&self) -> bool {
        self.0.is_done()
    }
}

/// The driving loop of the LATKE documentation: the parties alternate until the one whose turn
/// it is is done; no message is an empty message
pub fn latke_loop<A: Party, B: Party>(a: &mut A, b: &mut B, mut net: impl FnMut(usize, &mut Vec<u8>), mut obs: impl FnMut(usize, bool, bool)) {
    let mut m: Vec<u8> = Vec::new();
    let mut i = 0;
    let mut n = 0;
    loop {
        if if i % 2 == 0 { a.done() } else { b.done() } {
            return;
        }
        let r = if i % 2 == 0 { a.step(&m) } else { b.step(&m) };
        obs(i, a.done(), b.done());
        m = r.unwrap().unwrap_or_default();
        if !m.is_empty() {
            net(n, &mut m);
            n += 1;
        }
        i += 1;
        if i > 16 {
            check("the protocol does not end", false);
            return;
        }
    }
}

/// lengths of all messages
fn lens<I: Info, P: PInfo>() -> Vec<usize> {
    let mut v = P::LENS.to_vec();
    v.extend(I::LENS.iter().map(|x| x + OVER));
    v
}

fn file<I: Info, P: PInfo>(stream: u64, pw: &[u8], id: &Id) -> LatkePwfile<I> {
    Latke::<I, P>::gen_pwfile(Rng::new(stream), pw, id)
}

pub fn honest<I: Info, P: PInfo>() {
    let pw = bytes("pw", pick("pwlen", &[0, 5, 33, 130]));
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let ssid = arr("ssid");
    let (fa, fb) = (file::<I, P>(11, &pw, &ida), file::<I, P>(12, &pw, &idb));
    let (pa, pb) = if choice("peer model", 2) == 0 { (PeerModel::PreSpecified(idb), PeerModel::PreSpecified(ida)) } else { (PeerModel::PostSpecified, PeerModel::PostSpecified) };
    let mut a = LatkeP::<I, P>::new(1, ssid, &fa, I_, pa);
    let mut b = LatkeP::<I, P>::new(2, ssid, &fb, R_, pb);
    let l = lens::<I, P>();
    let mut sent = 0;
    let np = P::LENS.len();
    let mut early = false;
    let any = core::cell::Cell::new(false);
    latke_loop(
        &mut a,
        &mut b,
        |i, m| {
            check("message length", i < l.len() && m.len() == l[i]);
            // no completion before the other side's part of the IBKE is over
            if i < np + I::MSGS - 2 {
                early |= any.get();
            }
            sent = i + 1;
        },
        |_, da, db| any.set(da | db),
    );
    check("completed early", !early);
    check("number of messages", sent == l.len());
    check("both complete", a.done() && b.done());
    let (ra, rb) = (a.0.finalize(), b.0.finalize());
    check("same session key", eq(&ra.1, &rb.1));
    check("identities", eq(&ra.0, &idb) & eq(&rb.0, &ida));
    reach("honest run completed");
}

fn settle<I: Info, P: PInfo>(a: &LatkeP<I, P>, b: &LatkeP<I, P>, what: &str) {
    if a.done() && b.done() {
        // either result may be refused (a panic ends the run)
        let (ra, rb) = (a.0.finalize(), b.0.finalize());
        reach("both released a result");
        check(what, !eq(&ra.1, &rb.1));
    }
}

pub fn mismatch<I: Info, P: PInfo>() {
    let pw = bytes("pw", 5);
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let ssid: Ssid = arr("ssid");
    let (mut pw2, mut ssid2) = (pw.clone(), ssid);
    let post = PeerModel::PostSpecified;
    let (mut pa, mut pb) = match choice("peer model", 3) {
        0 => (post, post),
        1 => (PeerModel::PreSpecified(idb), PeerModel::PreSpecified(ida)),
        // one side knows its peer, the other does not
        _ => (PeerModel::PreSpecified(idb), post),
    };
    match choice("kind", 5) {
        0 => {
            pw2 = bytes("pw2", pick("pw2len", &[0, 4, 5, 6]));
            assume(!eq(&pw, &pw2));
        }
        1 => {
            ssid2 = arr("ssid2");
            assume(!eq(&ssid, &ssid2));
        }
        k => {
            // the expected identity is not the peer's
            let x: Id = arr("idx");
            if k == 2 || k == 4 {
                assume(!eq(&x, &idb));
                pa = PeerModel::PreSpecified(x);
            }
            if k == 3 || k == 4 {
                let y: Id = arr("idy");
                assume(!eq(&y, &ida));
                pb = PeerModel::PreSpecified(y);
            }
        }
    }
    let (fa, fb) = (file::<I, P>(11, &pw, &ida), file::<I, P>(12, &pw2, &idb));
    let mut a = LatkeP::<I, P>::new(1, ssid, &fa, I_, pa);
    let mut b = LatkeP::<I, P>::new(2, ssid2, &fb, R_, pb);
    panic_ok(true);
    reach("started");
    latke_loop(&mut a, &mut b, |_, _| (), |_, _, _| ());
    reach("mismatched run ended");
    settle(&a, &b, "same key despite the mismatch");
}

/// Message `at` altered (same length; or cut or extended by a byte)
pub fn tamper<I: Info, P: PInfo>(at: usize) {
    let pw = bytes("pw", 5);
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let ssid: Ssid = arr("ssid");
    let (fa, fb) = (file::<I, P>(11, &pw, &ida), file::<I, P>(12, &pw, &idb));
    let pre = choice("peer model", 2) == 0;
    let (pa, pb) = if pre { (PeerModel::PreSpecified(idb), PeerModel::PreSpecified(ida)) } else { (PeerModel::PostSpecified, PeerModel::PostSpecified) };
    let mut a = LatkeP::<I, P>::new(1, ssid, &fa, I_, pa);
    let mut b = LatkeP::<I, P>::new(2, ssid, &fb, R_, pb);
    let n = lens::<I, P>()[at];
    let kind = choice("kind", 3);
    let k = bytes("mask", if kind == 0 { n } else { 1 });
    if kind == 0 {
        assume(!eq(&k, &vec![0; n]));
    }
    panic_ok(true);
    reach("started");
    latke_loop(
        &mut a,
        &mut b,
        |i, m| {
            if i == at {
                match kind {
                    0 => {
                        for (x, y) in m.iter_mut().zip(&k) {
                            *x ^= *y;
                        }
                    }
                    1 => m.push(k[0]),
                    _ => {
                        m.pop();
                    }
                }
            }
        },
        |_, _, _| (),
    );
    reach("altered run ended");
    settle(&a, &b, "same key on an altered message");
}

/// Password files
pub fn pwfile<I: Info, P: PInfo>() {
    let (n1, n2) = pick("pwlens", &[(5, 5), (0, 1), (33, 32), (33, 33), (129, 129), (128, 129)]);
    let p1 = bytes("pw", n1);
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let fa = file::<I, P>(11, &p1, &ida);
    let fb = file::<I, P>(12, &p1, &idb);
    let a = fa.verif_parts();
    let b = fb.verif_parts();
    check("main key depends on more than the password", eq(a.0.as_bytes(), b.0.as_bytes()));
    check("certified identity", eq(&a.1.id(), &ida));
    check("certified identity", eq(&b.1.id(), &idb));
    if I::UPK > 0 {
        let u = 32 + I::UPK;
        check("user keys are not fresh", !eq(&I::cert_bytes(a.1)[32..u], &I::cert_bytes(b.1)[32..u]));
        // the same identity again
        let fc = file::<I, P>(13, &p1, &ida);
        let c = fc.verif_parts();
        check("user keys are not fresh", !eq(&I::cert_bytes(a.1)[32..u], &I::cert_bytes(c.1)[32..u]));
    }
    let p2 = bytes("pw2", n2);
    assume(!eq(&p1, &p2));
    let f2 = file::<I, P>(14, &p2, &ida);
    check("different passwords, same main key", !eq(a.0.as_bytes(), f2.verif_parts().0.as_bytes()));
    // the certificates and user keys are good for the IBKE under the main key alone
    let (mpk, msk) = (a.0.clone(), ());
    let _ = msk;
    let ssid: Ssid = arr("ssid");
    let mk = |s: u64, f: (&I::MainPubkey, &I::Certificate, &I::UserPrivkey), r: PartyRole| {
        let mut g = Rng::new(s);
        let x = I::new_session(&mut g, ssid, mpk.clone(), f.1.clone(), f.2.clone(), r);
        IbkeP(x, g)
    };
    let mut x = mk(1, a, I_);
    let mut y = mk(2, b, R_);
    let o = exchange(&mut x, &mut y, |_, _| (), |_, _, _| ());
    check("the certificates verify under the main key", !o.a_err && !o.b_err && x.done() && y.done());
    let (rx, ry) = (x.result(), y.result());
    check("identities", eq(&rx.0, &idb) & eq(&ry.0, &ida));
    reach("password files used");
}

// ---------------------------------------------------------------- CHIP
pub struct ChipP<P: PInfo>(pub Chip<P>, pub Rng);

impl<P: PInfo> ChipP<P> {
    pub fn new(stream: u64, ssid: Ssid, f: &ChipPwfile, role: PartyRole, other: Id) -> Self {
        let mut r = Rng::new(stream);
        ChipP(Chip::new_session(&mut r, ssid, f.clone(), role, other), r)
    }
}

impl<P: PInfo> Party for ChipP<P> {
    fn step(&mut self, m: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        self.0.run(&mut self.1, m).map_err(|_| ())
    }
    fn done(&self) -> bool {
        false
    }
}

pub fn chip_honest<P: PInfo>() {
    let pw = bytes("pw", pick("pwlen", &[0, 5, 33, 130]));
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let ssid = arr("ssid");
    let fa = Chip::<P>::gen_pwfile(Rng::new(11), pw.clone(), ida);
    let fb = Chip::<P>::gen_pwfile(Rng::new(12), pw.clone(), idb);
    let mut a = ChipP::<P>::new(1, ssid, &fa, I_, idb);
    let mut b = ChipP::<P>::new(2, ssid, &fb, R_, ida);
    let o = exchange(&mut a, &mut b, |i, m| check("message length", m.len() == if i < 2 { 64 } else { P::LENS[i - 2] }), |_, _, _| ());
    check("no error", !o.a_err && !o.b_err);
    check("number of messages", o.msgs == 2 + P::LENS.len());
    check("same session key", eq(&a.0.finalize(), &b.0.finalize()));
    reach("honest run completed");
}

fn chip_settle<P: PInfo>(a: &ChipP<P>, b: &ChipP<P>, o: &Outcome, what: &str) {
    if o.a_err || o.b_err {
        return;
    }
    // panics unless complete
    let (ka, kb): (SessKey, SessKey) = (a.0.finalize(), b.0.finalize());
    reach("both completed");
    check(what, !eq(&ka, &kb));
}

pub fn chip_mismatch<P: PInfo>() {
    let pw = bytes("pw", 5);
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let ssid: Ssid = arr("ssid");
    let (mut pw2, mut ssid2, mut expect_b, mut expect_a) = (pw.clone(), ssid, idb, ida);
    match choice("kind", 5) {
        0 => {
            pw2 = bytes("pw2", pick("pw2len", &[0, 4, 5, 6]));
            assume(!eq(&pw, &pw2));
        }
        1 => {
            ssid2 = arr("ssid2");
            assume(!eq(&ssid, &ssid2));
        }
        k => {
            if k == 2 || k == 4 {
                expect_b = arr("idx");
                assume(!eq(&expect_b, &idb));
            }
            if k == 3 || k == 4 {
                expect_a = arr("idy");
                assume(!eq(&expect_a, &ida));
            }
        }
    }
    let fa = Chip::<P>::gen_pwfile(Rng::new(11), pw.clone(), ida);
    let fb = Chip::<P>::gen_pwfile(Rng::new(12), pw2, idb);
    let mut a = ChipP::<P>::new(1, ssid, &fa, I_, expect_b);
    let mut b = ChipP::<P>::new(2, ssid2, &fb, R_, expect_a);
    panic_ok(true);
    let o = exchange(&mut a, &mut b, |_, _| (), |_, _, _| ());
    reach("mismatched run ended");
    chip_settle(&a, &b, &o, "same key despite the mismatch");
}

pub fn chip_tamper<P: PInfo>(at: usize) {
    let pw = bytes("pw", 5);
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let ssid: Ssid = arr("ssid");
    let fa = Chip::<P>::gen_pwfile(Rng::new(11), pw.clone(), ida);
    let fb = Chip::<P>::gen_pwfile(Rng::new(12), pw, idb);
    let mut a = ChipP::<P>::new(1, ssid, &fa, I_, idb);
    let mut b = ChipP::<P>::new(2, ssid, &fb, R_, ida);
    let n = if at < 2 { 64 } else { P::LENS[at - 2] };
    let k = bytes("mask", n);
    assume(!eq(&k, &vec![0; n]));
    panic_ok(true);
    let o = exchange(
        &mut a,
        &mut b,
        |i, m| {
            if i == at {
                for (x, y) in m.iter_mut().zip(&k) {
                    *x ^= *y;
                }
            }
        },
        |_, _, _| (),
    );
    reach("altered run ended");
    chip_settle(&a, &b, &o, "same key on an altered message");
}

// ---------------------------------------------------------------- an attacker who knows the password
use ::latke::verif_hooks::Eue;
use ::latke::IdentityBasedKeyExchange;
use std::{cell::RefCell, rc::Rc};

#[derive(Clone)]
pub struct Script {
    outs: Vec<Vec<u8>>,
    got: Rc<RefCell<Vec<Vec<u8>>>>,
}
impl AsBytes for Script {
    fn as_bytes(&self) -> &[u8] {
        &[]
    }
}
#[derive(Clone)]
pub struct NoCert;
impl IdCertificate for NoCert {
    fn id(&self) -> Id {
        [0; 32]
    }
}
/// An inner protocol that records what it receives and sends what it is told to; inside the
/// encrypted session it opens and makes messages like an honest party
pub struct Relay(Script, usize);
impl IdentityBasedKeyExchange for Relay {
    type MainPubkey = Script;
    type MainPrivkey = ();
    type UserPubkey = ();
    type UserPrivkey = ();
    type Certificate = NoCert;
    type Error = ();
    fn gen_main_keypair<R>(_: R) -> (Script, ()) {
        unreachable!()
    }
    fn gen_user_keypair<R>(_: R) -> ((), ()) {
        unreachable!()
    }
    fn extract<R>(_: R, _: &(), _: &Id, _: &()) -> NoCert {
        NoCert
    }
    fn new_session<R>(_: R, _: Ssid, s: Script, _: NoCert, _: (), _: PartyRole) -> Self {
        Relay(s, 0)
    }
    fn run<R>(&mut self, _: R, m: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        self.0.got.borrow_mut().push(m.to_vec());
        let o = self.0.outs.get(self.1).cloned().unwrap_or(vec![0]);
        self.1 += 1;
        Ok(Some(o))
    }
    fn run_sim(&mut self) -> Option<usize> {
        None
    }
    fn is_done(&self) -> bool {
        false
    }
    fn finalize(&self) -> (Id, SessKey) {
        unreachable!()
    }
}

/// The attacker's end of an encrypted session: what it read from `incoming`, and the encryption
/// of the last of `outs`
fn end(stream: u64, ssid: Ssid, role: PartyRole, key: SessKey, incoming: &[Vec<u8>], outs: &[Vec<u8>]) -> (Vec<Vec<u8>>, Vec<u8>) {
    let s = Script { outs: outs.to_vec(), got: Rc::new(RefCell::new(Vec::new())) };
    let mut r = Rng::new(stream);
    let mut e = Eue::<Relay>::new_session(&mut r, ssid, s.clone(), NoCert, (), role, key);
    let mut c = Vec::new();
    for m in incoming {
        c = e.run(&mut r, m).unwrap().unwrap();
    }
    let g = s.got.borrow().clone();
    check("the attacker reads every message", g.len() == incoming.len());
    (g, c)
}

/// An attacker who knows the password (it holds the main public key) runs the PAKE with both
/// users and passes the identity-based key exchange on
pub fn mitm<I: Info, P: PInfo>() {
    let pw = bytes("pw", 5);
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let ssid: Ssid = arr("ssid");
    let (fa, fb) = (file::<I, P>(11, &pw, &ida), file::<I, P>(12, &pw, &idb));
    let mpk = fa.verif_parts().0.as_bytes().to_vec();
    let pre = choice("peer model", 2) == 0;
    let (pa, pb) = if pre { (PeerModel::PreSpecified(idb), PeerModel::PreSpecified(ida)) } else { (PeerModel::PostSpecified, PeerModel::PostSpecified) };
    let secret = if pre { [&mpk[..], &ida, &idb].concat() } else { mpk };
    let mut a = LatkeP::<I, P>::new(1, ssid, &fa, I_, pa);
    let mut b = LatkeP::<I, P>::new(2, ssid, &fb, R_, pb);
    let mut ea = P::new(Rng::new(3), ssid, &secret, R_);
    let mut eb = P::new(Rng::new(4), ssid, &secret, I_);
    let mut go = |u: &mut LatkeP<I, P>, m: &[u8]| u.step(m).unwrap().unwrap_or_default();
    let mut ma = go(&mut a, &[]);
    while !ea.is_done() {
        let r = ea.run(&ma).unwrap().unwrap_or_default();
        ma = go(&mut a, &r);
    }
    let mut mb = Vec::new();
    while !eb.is_done() {
        match eb.run(&mb).unwrap() {
            Some(r) => mb = go(&mut b, &r),
            None => break,
        }
    }
    let (ka, kb) = (ea.finalize(), eb.finalize());
    let (mut from_a, mut from_b, mut to_a, mut to_b) = (vec![ma], vec![Vec::new()], Vec::new(), Vec::new());
    loop {
        let (g, _) = end(5, ssid, R_, ka, &from_a, &to_a);
        to_b.push(g.last().unwrap().clone());
        let (_, c) = end(6, ssid, I_, kb, &from_b, &to_b);
        let m = go(&mut b, &c);
        if m.is_empty() {
            break;
        }
        from_b.push(m);
        let (g, _) = end(6, ssid, I_, kb, &from_b, &to_b);
        to_a.push(g.last().unwrap().clone());
        let (_, c) = end(5, ssid, R_, ka, &from_a, &to_a);
        let m = go(&mut a, &c);
        if m.is_empty() {
            break;
        }
        from_a.push(m);
    }
    check("both complete", a.done() && b.done());
    let (ra, rb) = (a.0.finalize(), b.0.finalize());
    reach("both released a result");
    check("same key although the messages differ", !eq(&ra.1, &rb.1));
}

use crate::proto::*;
use crate::rt::*;
use ::latke::ibke::{
    fg_ibke::FgIbkeC,
    id_hmqv_c::{IdHmqvC, IdHmqvCCert},
    id_sig_dh::{IdSigDh, SigDhCert},
    id_sigma_r::{IdSigmaRDilithium2, IdSigmaREd25519, SigmaCert},
};
use ::latke::{Id, IdentityBasedKeyExchange as Ibke, PartyRole, SessKey, Ssid};

/// What the scenarios need to know about each IBKE
pub trait Info: Ibke {
    /// number of messages
    const MSGS: usize;
    /// lengths of the messages
    const LENS: &'static [usize];
    /// both sides confirm the key
    const CONFIRM: bool;
    /// (message index, offset) of the certificate in clear messages
    const CERT_AT: &'static [(usize, usize)] = &[];
    /// length of the user public key inside a certificate
    const UPK: usize = 0;
    fn cert_bytes(_: &Self::Certificate) -> Vec<u8> {
        unreachable!()
    }
    fn cert_from(_: &[u8]) -> Option<Self::Certificate> {
        unreachable!()
    }
}

impl Info for IdHmqvC {
    const MSGS: usize = 3;
    const LENS: &'static [usize] = &[160, 192, 32];
    const CONFIRM: bool = true;
    const CERT_AT: &'static [(usize, usize)] = &[(0, 32), (1, 64)];
    const UPK: usize = 32;
    fn cert_bytes(c: &IdHmqvCCert) -> Vec<u8> {
        c.verif_to_bytes()
    }
    fn cert_from(b: &[u8]) -> Option<IdHmqvCCert> {
        Some(IdHmqvCCert::verif_from_bytes(b))
    }
}

impl Info for IdSigDh {
    const MSGS: usize = 2;
    const LENS: &'static [usize] = &[256, 256];
    const CONFIRM: bool = false;
    const CERT_AT: &'static [(usize, usize)] = &[(0, 96), (1, 96)];
    const UPK: usize = 64;
    fn cert_bytes(c: &SigDhCert) -> Vec<u8> {
        c.verif_to_bytes()
    }
    fn cert_from(b: &[u8]) -> Option<SigDhCert> {
        Some(SigDhCert::verif_from_bytes(b))
    }
}

impl Info for FgIbkeC {
    const MSGS: usize = 3;
    const LENS: &'static [usize] = &[96, 128, 32];
    const CONFIRM: bool = true;
}

impl Info for IdSigmaREd25519 {
    const MSGS: usize = 4;
    const LENS: &'static [usize] = &[704, 768, 268, 268];
    const CONFIRM: bool = true;
    const UPK: usize = 32;
    fn cert_bytes(c: &SigmaCert) -> Vec<u8> {
        c.verif_to_bytes()
    }
    fn cert_from(b: &[u8]) -> Option<SigmaCert> {
        SigmaCert::verif_from_bytes(false, b)
    }
}

impl Info for IdSigmaRDilithium2 {
    const MSGS: usize = 4;
    const LENS: &'static [usize] = &[704, 768, 6260, 6260];
    const CONFIRM: bool = true;
    const UPK: usize = 1312;
    fn cert_bytes(c: &SigmaCert) -> Vec<u8> {
        c.verif_to_bytes()
    }
    fn cert_from(b: &[u8]) -> Option<SigmaCert> {
        SigmaCert::verif_from_bytes(true, b)
    }
}

/// A certified user
pub struct User<I: Ibke> {
    pub id: Id,
    pub upk: I::UserPubkey,
    pub usk: I::UserPrivkey,
    pub cert: I::Certificate,
}

impl<I: Ibke> User<I> {
    pub fn new(stream: u64, msk: &I::MainPrivkey, id: Id) -> Self {
        let mut r = Rng::new(stream);
        let (upk, usk) = I::gen_user_keypair(&mut r);
        let cert = I::extract(&mut r, msk, &id, &upk);
        User { id, upk, usk, cert }
    }
    pub fn session(&self, stream: u64, mpk: &I::MainPubkey, ssid: Ssid, role: PartyRole) -> IbkeP<I> {
        self.session_with(stream, mpk, ssid, role, self.cert.clone())
    }
    pub fn session_with(&self, stream: u64, mpk: &I::MainPubkey, ssid: Ssid, role: PartyRole, cert: I::Certificate) -> IbkeP<I> {
        let mut r = Rng::new(stream);
        let s = I::new_session(&mut r, ssid, mpk.clone(), cert, self.usk.clone(), role);
        IbkeP(s, r)
    }
}

pub const I_: PartyRole = PartyRole::Initiator;
pub const R_: PartyRole = PartyRole::Responder;

pub struct World<I: Ibke> {
    pub mpk: I::MainPubkey,
    pub msk: I::MainPrivkey,
    pub a: User<I>,
    pub b: User<I>,
    pub ssid: Ssid,
}

pub fn world<I: Ibke>() -> World<I> {
    let (mpk, msk) = I::gen_main_keypair(Rng::new(10));
    let a = User::new(11, &msk, arr("ida"));
    let b = User::new(12, &msk, arr("idb"));
    World { mpk, msk, a, b, ssid: arr("ssid") }
}

pub fn honest<I: Info>() {
    let w = world::<I>();
    let mut a = w.a.session(1, &w.mpk, w.ssid, I_);
    let mut b = w.b.session(2, &w.mpk, w.ssid, R_);
    let msgs = I::MSGS;
    let (la, lb) = if msgs % 2 == 0 { (msgs, msgs - 1) } else { (msgs - 1, msgs) };
    let o = exchange(&mut a, &mut b, |i, m| check("message length", m.len() == I::LENS[i]), |i, da, db| {
        check("initiator completes exactly at its last step", da == (i >= la));
        check("responder completes exactly at its last step", db == (i >= lb));
    });
    check("no error", !o.a_err && !o.b_err);
    check("number of messages", o.msgs == msgs);
    let (ra, rb) = (a.result(), b.result());
    check("same session key", eq(&ra.1, &rb.1));
    check("initiator reports the responder's identity", eq(&ra.0, &w.b.id));
    check("responder reports the initiator's identity", eq(&rb.0, &w.a.id));
    reach("honest run completed");
}

fn xor(m: &mut [u8], k: &[u8]) {
    for (x, y) in m.iter_mut().zip(k) {
        *x ^= *y;
    }
}

/// Messages altered by symbolic masks, those whose bit is set in `which`
pub fn tamper<I: Info>(which: usize) {
    let w = world::<I>();
    let mut a = w.a.session(1, &w.mpk, w.ssid, I_);
    let mut b = w.b.session(2, &w.mpk, w.ssid, R_);
    let mut ks: Vec<Vec<u8>> = Vec::new();
    let mut same = true;
    for i in 0..I::MSGS {
        if which >> i & 1 == 1 {
            let k = bytes(["mask0", "mask1", "mask2", "mask3"][i], I::LENS[i]);
            same &= eq(&k, &vec![0; I::LENS[i]]);
            ks.push(k);
        } else {
            ks.push(Vec::new());
        }
    }
    panic_ok(true);
    exchange(&mut a, &mut b, |i, m| xor(m, &ks[i]), |_, _, _| ());
    reach("altered run ended");
    if a.done() && b.done() {
        let (ra, rb) = (a.result(), b.result());
        if I::CONFIRM {
            check("both completed on altered messages", same);
            check("same key", eq(&ra.1, &rb.1));
        } else {
            check("same key on altered messages", same | !eq(&ra.1, &rb.1));
        }
        check("identities", !same | (eq(&ra.0, &w.b.id) & eq(&rb.0, &w.a.id)));
        reach("both completed");
    }
}

/// The victim `v` (role `vrole`) against an attacker session
fn attack<I: Info>(v: &mut IbkeP<I>, e: &mut IbkeP<I>, vrole: PartyRole) {
    panic_ok(true);
    if vrole == I_ {
        exchange(v, e, |_, _| (), |_, _, _| ());
    } else {
        exchange(e, v, |_, _| (), |_, _, _| ());
    }
}

pub fn role(name: &str) -> PartyRole {
    if choice(name, 2) == 0 {
        I_
    } else {
        R_
    }
}

pub fn other(r: PartyRole) -> PartyRole {
    if r == I_ {
        R_
    } else {
        I_
    }
}

/// An attacker with its own keys presents a certificate the centre never issued for it
pub fn forged<I: Info>() {
    let w = world::<I>();
    // E is a genuine user too
    let e = User::<I>::new(13, &w.msk, arr("ide"));
    let (mpk2, msk2) = I::gen_main_keypair(Rng::new(14));
    let vrole = role("victim role");
    let (ce, cb) = (I::cert_bytes(&e.cert), I::cert_bytes(&w.b.cert));
    let u = 32 + I::UPK;
    let mut mpk_e = w.mpk.clone();
    let mut claim = w.b.id;
    let cert = match choice("kind", 6) {
        0 => {
            // issued by another centre
            if choice("own centre", 2) == 1 {
                mpk_e = mpk2;
            }
            I::extract(Rng::new(15), &msk2, &w.b.id, &e.upk)
        }
        1 => {
            // E's certificate under another identity
            let id = arr::<32>("idx");
            assume(!eq(&id, &e.id));
            claim = id;
            I::cert_from(&[&id, &ce[32..]].concat()).unwrap()
        }
        2 => {
            // B's certificate, with E's public key
            I::cert_from(&[&cb[..32], &ce[32..u], &cb[u..]].concat()).unwrap()
        }
        3 => {
            // B's identity, E's key, and a made-up signature
            let s = bytes("sig", cb.len() - u);
            I::cert_from(&[&cb[..32], &ce[32..u], &s].concat()).unwrap()
        }
        4 => {
            // B's identity, E's key, E's own signature in place of the centre's
            let c = I::cert_bytes(&I::extract(Rng::new(15), &msk2, &w.b.id, &e.upk));
            let k = bytes("mask", c.len() - u);
            let mut s = c[u..].to_vec();
            xor(&mut s, &k);
            I::cert_from(&[&cb[..32], &ce[32..u], &s].concat()).unwrap()
        }
        _ => {
            // part of the key from B's certificate (signed DH has two keys)
            if I::UPK != 64 {
                return;
            }
            let k = if choice("which key", 2) == 0 { [&ce[32..64], &cb[64..96]].concat() } else { [&cb[32..64], &ce[64..96]].concat() };
            let s = if choice("which signature", 2) == 0 { &cb[u..] } else { &ce[u..] };
            let id = if choice("which id", 2) == 0 { w.b.id } else { e.id };
            claim = id;
            I::cert_from(&[&id[..], &k, s].concat()).unwrap()
        }
    };
    let _ = claim;
    let mut v = w.a.session(1, &w.mpk, w.ssid, vrole);
    let mut x = e.session_with(2, &mpk_e, w.ssid, other(vrole), cert);
    reach("forged certificate presented");
    attack(&mut v, &mut x, vrole);
    reach("attack ended");
    check("completed with a certificate that was never issued", !v.done());
}

/// An attacker presents B's genuine certificate but does not hold B's key
pub fn stolen_cert<I: Info>() {
    let w = world::<I>();
    let e = User::<I>::new(13, &w.msk, arr("ide"));
    let vrole = role("victim role");
    let mut v = w.a.session(1, &w.mpk, w.ssid, vrole);
    let mut x = e.session_with(2, &w.mpk, w.ssid, other(vrole), w.b.cert.clone());
    attack(&mut v, &mut x, vrole);
    reach("attack ended");
    check("completed with a peer that does not hold the certified key", !v.done());
}

/// Clear certificates replaced field by field in transit
pub fn recombine<I: Info>() {
    let w = world::<I>();
    let e = User::<I>::new(13, &w.msk, arr("ide"));
    let ce = I::cert_bytes(&e.cert);
    let ca = I::cert_bytes(&w.a.cert);
    let cb = I::cert_bytes(&w.b.cert);
    let mut a = w.a.session(1, &w.mpk, w.ssid, I_);
    let mut b = w.b.session(2, &w.mpk, w.ssid, R_);
    let at = choice("message", 2);
    let u = 32 + I::UPK;
    let id = *[&ca[..32], &cb[..32], &ce[..32]].get(choice("id", 3)).unwrap();
    let pk = *[&ca[32..u], &cb[32..u], &ce[32..u]].get(choice("key", 3)).unwrap();
    let sg = *[&ca[u..], &cb[u..], &ce[u..]].get(choice("signature", 3)).unwrap();
    panic_ok(true);
    exchange(
        &mut a,
        &mut b,
        |i, m| {
            if i == I::CERT_AT[at].0 {
                let o = I::CERT_AT[at].1;
                m[o..o + 32].copy_from_slice(id);
                m[o + 32..o + u].copy_from_slice(pk);
                m[o + u..].copy_from_slice(sg);
            }
        },
        |_, _, _| (),
    );
    reach("run ended");
    if a.done() && b.done() {
        let (ra, rb) = (a.result(), b.result());
        reach("both completed");
        let k = eq(&ra.1, &rb.1);
        check("same key but wrong identities", !k | (eq(&ra.0, &w.b.id) & eq(&rb.0, &w.a.id)));
    }
    // whoever completed reports an identity certified with that key
    if a.done() || b.done() {
        let rid = if at == 0 { b.done().then(|| b.result().0) } else { a.done().then(|| a.result().0) };
        if let Some(r) = rid {
            let g = |c: &[u8]| eq(&r, &c[..32]) & eq(pk, &c[32..u]);
            check("reported identity was never certified with that key", g(&ca) | g(&cb) | g(&ce));
        }
    }
}

/// Different subsession ids, or different main keys
pub fn mismatch<I: Info>() {
    let (mpk, msk) = I::gen_main_keypair(Rng::new(10));
    let (ida, idb) = (arr("ida"), arr("idb"));
    let ssid: Ssid = arr("ssid");
    let a = User::<I>::new(11, &msk, ida);
    let (mut sa, mut sb);
    match choice("kind", 3) {
        0 => {
            let ssid2: Ssid = arr("ssid2");
            assume(!eq(&ssid, &ssid2));
            let b = User::<I>::new(12, &msk, idb);
            sa = a.session(1, &mpk, ssid, I_);
            sb = b.session(2, &mpk, ssid2, R_);
        }
        1 => {
            // B certified by and using another centre
            let (mpk2, msk2) = I::gen_main_keypair(Rng::new(20));
            let b = User::<I>::new(12, &msk2, idb);
            sa = a.session(1, &mpk, ssid, I_);
            sb = b.session(2, &mpk2, ssid, R_);
        }
        _ => {
            // B certified by the same centre, but one of the sessions uses another main key
            let (mpk2, _) = I::gen_main_keypair(Rng::new(20));
            let b = User::<I>::new(12, &msk, idb);
            let (ma, mb) = if choice("which", 2) == 0 { (&mpk, &mpk2) } else { (&mpk2, &mpk) };
            sa = a.session(1, ma, ssid, I_);
            sb = b.session(2, mb, ssid, R_);
        }
    }
    panic_ok(true);
    exchange(&mut sa, &mut sb, |_, _| (), |_, _, _| ());
    reach("mismatched run ended");
    if sa.done() && sb.done() {
        reach("both completed");
        check("same key despite the mismatch", !eq(&sa.result().1, &sb.result().1));
    }
}

/// The centre issued a second certificate for B's key to another identity; the network
/// substitutes it
pub fn misbind<I: Info>() {
    let w = world::<I>();
    let idc: Id = arr("idc");
    let cc = I::cert_bytes(&I::extract(Rng::new(16), &w.msk, &idc, &w.b.upk));
    let idd: Id = arr("idd");
    let cd = I::cert_bytes(&I::extract(Rng::new(17), &w.msk, &idd, &w.a.upk));
    let mut a = w.a.session(1, &w.mpk, w.ssid, I_);
    let mut b = w.b.session(2, &w.mpk, w.ssid, R_);
    let which = choice("substitute", 3) + 1;
    panic_ok(true);
    exchange(
        &mut a,
        &mut b,
        |i, m| {
            for (j, (n, o)) in I::CERT_AT.iter().enumerate() {
                if *n == i && which >> j & 1 == 1 {
                    m[*o..].copy_from_slice(if j == 0 { &cd } else { &cc });
                }
            }
        },
        |_, _, _| (),
    );
    reach("substituted run ended");
    if a.done() && b.done() {
        let (ra, rb) = (a.result(), b.result());
        reach("both completed");
        check("same key, wrong identity", !eq(&ra.1, &rb.1) | (eq(&ra.0, &w.b.id) & eq(&rb.0, &w.a.id)));
    }
}

/// SIGMA-R and FG: B is certified twice for one key; the honest sessions use either, the
/// reported identity must be the one in use
pub fn two_names<I: Info>() {
    let w = world::<I>();
    let idc: Id = arr("idc");
    let c = I::extract(Rng::new(16), &w.msk, &idc, &w.b.upk);
    let use_c = choice("cert", 2) == 1;
    let ar = role("role");
    let mut a = w.a.session(1, &w.mpk, w.ssid, ar);
    let mut b = w.b.session_with(2, &w.mpk, w.ssid, other(ar), if use_c { c } else { w.b.cert.clone() });
    if ar == I_ {
        exchange(&mut a, &mut b, |_, _| (), |_, _, _| ());
    } else {
        exchange(&mut b, &mut a, |_, _| (), |_, _, _| ());
    }
    check("both complete", a.done() && b.done());
    let (ra, rb) = (a.result(), b.result());
    check("same key", eq(&ra.1, &rb.1));
    check("reported identity is the certificate's", eq(&ra.0, if use_c { &idc } else { &w.b.id }) & eq(&rb.0, &w.a.id));
    reach("completed");
}

/// Two sessions of the same users; messages of either are delivered to either
pub fn cross<I: Info>(same_ssid: bool) {
    let w = world::<I>();
    let s2: Ssid = if same_ssid { w.ssid } else { arr("ssid2") };
    if !same_ssid {
        assume(!eq(&w.ssid, &s2));
    }
    // first session recorded completely, B in either role
    let brole = role("recorded role of B");
    let mut a1 = w.a.session(1, &w.mpk, s2, other(brole));
    let mut b1 = w.b.session(2, &w.mpk, s2, brole);
    let mut rec: Vec<Vec<u8>> = Vec::new();
    if brole == R_ {
        exchange(&mut a1, &mut b1, |_, m| rec.push(m.clone()), |_, _, _| ());
    } else {
        exchange(&mut b1, &mut a1, |_, m| rec.push(m.clone()), |_, _, _| ());
    }
    reach("first session recorded");
    // A starts again, the attacker answers with recorded messages of B (of the matching
    // length), or with A's own ones
    let vrole = role("victim role");
    let mut a = w.a.session(3, &w.mpk, w.ssid, vrole);
    panic_ok(true);
    let mut m: Vec<u8> = Vec::new();
    let mut own: Vec<Vec<u8>> = Vec::new();
    let start = if vrole == I_ { 0 } else { 1 };
    let mut replayed = false;
    let mut i = start;
    while i <= I::MSGS {
        if i > 0 {
            let need = I::LENS[i - 1];
            let mut cand: Vec<&Vec<u8>> = rec.iter().filter(|x| x.len() == need).collect();
            cand.extend(own.iter().filter(|x| x.len() == need));
            if cand.is_empty() {
                return;
            }
let c = choice(["c0", "c1", "c2", "c3", "c4"][i], cand.len());
            m = cand[c].clone();
            replayed |= i <= rec.len() && eq(&m, &rec[i - 1]);
        }
        match a.step(&m) {
            Err(()) => {
                break;
            }
            Ok(Some(x)) => own.push(x),
            Ok(None) => break,
        }
        i += 2;
    }
    reach("replay ended");
    // signed DH signs only the signer's own share: with the same (supposedly unique) subsession
    // id a recorded message of the right role is as good as a new one
    if !I::CONFIRM && same_ssid && replayed {
        return;
    }
    check("completed without a live peer", !a.done());
}

/// SIGMA-R / signed DH: messages mixed field by field between two running sessions
pub fn mix2<I: Info>() {
    let w = world::<I>();
    let s2: Ssid = arr("ssid2");
    let mut a = w.a.session(1, &w.mpk, w.ssid, I_);
    let mut b = w.b.session(2, &w.mpk, w.ssid, R_);
    let mut a2 = w.a.session(3, &w.mpk, s2, I_);
    let mut b2 = w.b.session(4, &w.mpk, s2, R_);
    panic_ok(true);
    let (mut m, mut m2): (Vec<u8>, Vec<u8>) = (Vec::new(), Vec::new());
    let mut mixed = false;
    let split = if I::MSGS == 4 { 32 } else { 32 };
    for i in 0..=I::MSGS {
        let (x, y) = if i % 2 == 0 { (&mut a, &mut a2) } else { (&mut b, &mut b2) };
        let (r, r2) = (x.step(&m), y.step(&m2));
        let (Ok(r), Ok(r2)) = (r, r2) else { break };
        let (Some(r), Some(r2)) = (r, r2) else { break };
        m = r;
        m2 = r2;
        if i < 2 {
            let c = choice(["x0", "x1"][i], 4);
            if c & 1 == 1 {
                for j in 0..split {
                    core::mem::swap(&mut m[j], &mut m2[j]);
                }
            }
            if c & 2 == 2 {
                for j in split..m.len() {
                    core::mem::swap(&mut m[j], &mut m2[j]);
                }
            }
            mixed |= c != 0;
        }
    }
    reach("mixed run ended");
    if a.done() && b.done() && mixed {
        // the mix was consistent in both directions or it was noticed
        check("completed on mixed messages with the same key", !eq(&a.result().1, &b.result().1));
    }
    if !mixed {
        check("unmixed sessions complete", a.done() && b.done());
        reach("unmixed");
    }
}

pub fn same_key(a: &SessKey, b: &SessKey) -> bool {
    eq(a, b)
}

//! Fresh randomness of either party gives a new key and new ephemeral values (P10)
use crate::ibke::*;
use crate::latke_s::{latke_loop, LatkeP, PInfo};
use crate::proto::*;
use crate::rt::*;
use ::latke::chip::Chip;
use ::latke::latke::{Latke, PeerModel};
use ::latke::{Id, Ssid};

/// Switches the stream of operating-system randomness before every step of a party
pub struct Os<A: Party>(pub A, pub u64, pub u64);

impl<A: Party> Party for Os<A> {
    fn step(&mut self, m: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        self.2 += 1;
        os_stream(self.1 * 64 + self.2);
        self.0.step(m)
    }
    fn done(&self) -> bool {
        self.0.done()
    }
}

/// (message, from, to) of the ephemeral values and nonces
type Fields = Vec<(usize, usize, usize)>;

fn compare(first: (Vec<u8>, Vec<Vec<u8>>), second: (Vec<u8>, Vec<Vec<u8>>), who: usize, fields: &Fields, free: &[usize], kem: bool) {
    let ((k1, m1), (k2, m2)) = (first, second);
    check("number of messages", m1.len() == m2.len());
    // a KEM's key is chosen by the responder alone
    if !(kem && who == 0) {
        check("same key although one party's randomness is fresh", !eq(&k1, &k2));
    }
    for (i, f, t) in fields {
        if i % 2 == who {
            check("an ephemeral value or nonce is repeated", !eq(&m1[*i][*f..*t], &m2[*i][*f..*t]));
        } else if free.contains(i) {
            // (the scenario really repeats the other party's randomness)
            check("the other party's ephemeral values are the same", eq(&m1[*i][*f..*t], &m2[*i][*f..*t]));
        }
    }
    reach("two runs compared");
}

fn streams(run: usize, who: usize) -> (u64, u64) {
    let f = |p: usize| 1 + p as u64 + if run == 1 && who == p { 2 } else { 0 };
    (f(0), f(1))
}

pub fn pake<P: PInfo>(fields: &[(usize, usize, usize)]) {
    let who = choice("who", 2);
    let pw = bytes("pw", 5);
    let ssid: Ssid = arr("ssid");
    let run = |n: usize| {
        let (sa, sb) = streams(n, who);
        os_stream(sa * 64);
        let a = PakeP::<P>::new(sa, ssid, &pw, I_);
        os_stream(sb * 64);
        let b = PakeP::<P>::new(sb, ssid, &pw, R_);
        let (mut a, mut b) = (Os(a, sa, 0), Os(b, sb, 0));
        let mut ms = Vec::new();
        exchange(&mut a, &mut b, |_, m| ms.push(m.clone()), |_, _, _| ());
        check("same key", eq(&a.0.key(), &b.0.key()));
        (a.0.key().to_vec(), ms)
    };
    compare(run(0), run(1), who, &fields.to_vec(), &[0], P::LENS[0] == 672)
}

pub trait Eph: Info {
    const EPH: &'static [(usize, usize, usize)];
}
use ::latke::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sig_dh::IdSigDh, id_sigma_r::{IdSigmaRDilithium2, IdSigmaREd25519}};
impl Eph for IdHmqvC {
    const EPH: &'static [(usize, usize, usize)] = &[(0, 0, 32), (1, 0, 32)];
}
impl Eph for IdSigDh {
    const EPH: &'static [(usize, usize, usize)] = &[(0, 0, 32), (1, 0, 32)];
}
impl Eph for FgIbkeC {
    const EPH: &'static [(usize, usize, usize)] = &[(0, 64, 96), (1, 64, 96)];
}
impl Eph for IdSigmaREd25519 {
    const EPH: &'static [(usize, usize, usize)] = &[(0, 0, 32), (0, 32, 704), (1, 0, 32), (1, 32, 768), (2, 224, 236), (3, 224, 236)];
}
impl Eph for IdSigmaRDilithium2 {
    const EPH: &'static [(usize, usize, usize)] = &[(0, 0, 32), (0, 32, 704), (1, 0, 32), (1, 32, 768), (2, 6216, 6228), (3, 6216, 6228)];
}

pub fn ibke<I: Eph>() {
    let who = choice("who", 2);
    let w = world::<I>();
    let run = |n: usize| {
        let (sa, sb) = streams(n, who);
        os_stream(sa * 64);
        let a = w.a.session(sa, &w.mpk, w.ssid, I_);
        os_stream(sb * 64);
        let b = w.b.session(sb, &w.mpk, w.ssid, R_);
        let (mut a, mut b) = (Os(a, sa, 0), Os(b, sb, 0));
        let mut ms = Vec::new();
        exchange(&mut a, &mut b, |_, m| ms.push(m.clone()), |_, _, _| ());
        let (ra, rb) = (a.0.result(), b.0.result());
        check("same key", eq(&ra.1, &rb.1));
        (ra.1.to_vec(), ms)
    };
    compare(run(0), run(1), who, &I::EPH.to_vec(), &[0], I::MSGS == 4)
}

pub fn latke<I: Info, P: PInfo>() {
    let who = choice("who", 2);
    let pw = bytes("pw", 5);
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let ssid: Ssid = arr("ssid");
    os_stream(1000);
    let fa = Latke::<I, P>::gen_pwfile(Rng::new(11), &pw, &ida);
    let fb = Latke::<I, P>::gen_pwfile(Rng::new(12), &pw, &idb);
    let run = |n: usize| {
        let (sa, sb) = streams(n, who);
        os_stream(sa * 64);
        let a = LatkeP::<I, P>::new(sa, ssid, &fa, I_, PeerModel::PostSpecified);
        os_stream(sb * 64);
        let b = LatkeP::<I, P>::new(sb, ssid, &fb, R_, PeerModel::PostSpecified);
        let (mut a, mut b) = (Os(a, sa, 0), Os(b, sb, 0));
        let mut ms = Vec::new();
        latke_loop(&mut a, &mut b, |_, m| ms.push(m.clone()), |_, _, _| ());
        let (ra, rb) = (a.0 .0.finalize(), b.0 .0.finalize());
        check("same key", eq(&ra.1, &rb.1));
        (ra.1.to_vec(), ms)
    };
    let (x, y) = (run(0), run(1));
    // the nonce of every encrypted message; the initiator sends the first one of either phase
    let np = P::LENS.len();
    let mut f: Fields = Vec::new();
    for (j, l) in I::LENS.iter().enumerate() {
        if j % 2 == who {
            f.push((np + j, *l, *l + 12));
        }
    }
    let (k1, k2) = (x.0, y.0);
    check("same key although one party's randomness is fresh", !eq(&k1, &k2));
    check("number of messages", x.1.len() == np + I::MSGS && y.1.len() == np + I::MSGS);
    for (i, a, b) in f {
        check("an encryption nonce is repeated", !eq(&x.1[i][a..b], &y.1[i][a..b]));
    }
    reach("two runs compared");
}

struct ChipP<P: PInfo>(Chip<P>, Rng);
impl<P: PInfo> Party for ChipP<P> {
    fn step(&mut self, m: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        self.0.run(&mut self.1, m).map_err(|_| ())
    }
    fn done(&self) -> bool {
        false
    }
}

pub fn chip<P: PInfo>() {
    let who = choice("who", 2);
    let pw = bytes("pw", 5);
    let (ida, idb): (Id, Id) = (arr("ida"), arr("idb"));
    let ssid: Ssid = arr("ssid");
    let fa = Chip::<P>::gen_pwfile(Rng::new(11), pw.clone(), ida);
    let fb = Chip::<P>::gen_pwfile(Rng::new(12), pw, idb);
    let run = |n: usize| {
        let (sa, sb) = streams(n, who);
        let mut mk = |s: u64, f: &::latke::chip::ChipPwfile, r, o| {
            os_stream(s * 64);
            let mut rng = Rng::new(s);
            let c = Chip::<P>::new_session(&mut rng, ssid, f.clone(), r, o);
            Os(ChipP(c, rng), s, 0)
        };
        let mut a = mk(sa, &fa, I_, idb);
        let mut b = mk(sb, &fb, R_, ida);
        let mut ms = Vec::new();
        exchange(&mut a, &mut b, |_, m| ms.push(m.clone()), |_, _, _| ());
        let (ka, kb) = (a.0 .0.finalize(), b.0 .0.finalize());
        check("same key", eq(&ka, &kb));
        (ka.to_vec(), ms)
    };
    compare(run(0), run(1), who, &vec![(0, 32, 64), (1, 32, 64)], &[0, 1], P::LENS[0] == 672)
}

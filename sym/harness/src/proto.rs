//! Common view of the two-party protocols of the crate
use crate::rt::*;
use ::latke::{Id, IdentityBasedKeyExchange, Pake, PartyRole, SessKey};

pub trait Party {
    fn step(&mut self, m: &[u8]) -> Result<Option<Vec<u8>>, ()>;
    fn done(&self) -> bool;
}

pub struct PakeP<P: Pake>(pub P);

impl<P: Pake> PakeP<P> {
    pub fn new(stream: u64, ssid: [u8; 32], pw: &[u8], role: PartyRole) -> Self {
        PakeP(P::new(Rng::new(stream), ssid, pw, role))
    }
    pub fn key(&self) -> SessKey {
        self.0.finalize()
    }
}

impl<P: Pake> Party for PakeP<P> {
    fn step(&mut self, m: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        self.0.run(m).map_err(|_| ())
    }
    fn done(&self) -> bool {
        self.0.is_done()
    }
}

pub struct IbkeP<I: IdentityBasedKeyExchange>(pub I, pub Rng);

impl<I: IdentityBasedKeyExchange> IbkeP<I> {
    pub fn result(&self) -> (Id, SessKey) {
        self.0.finalize()
    }
}

impl<I: IdentityBasedKeyExchange> Party for IbkeP<I> {
    fn step(&mut self, m: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        self.0.run(&mut self.1, m).map_err(|_| ())
    }
    fn done(&self) -> bool {
        self.0.is_done()
    }
}

/// What happened in a run of two parties
#[derive(Default)]
pub struct Outcome {
    pub a_err: bool,
    pub b_err: bool,
    /// number of messages sent
    pub msgs: usize,
}

/// Runs initiator `a` against responder `b`.  `net` sees (index, message) and may replace the
/// message; `obs` is called after every step with (index of the step, a.done, b.done)
pub fn exchange<A: Party, B: Party>(
    a: &mut A,
    b: &mut B,
    mut net: impl FnMut(usize, &mut Vec<u8>),
    mut obs: impl FnMut(usize, bool, bool),
) -> Outcome {
    let mut o = Outcome::default();
    let mut m: Vec<u8> = Vec::new();
    let mut i = 0usize;
    loop {
        let r = if i % 2 == 0 { a.step(&m) } else { b.step(&m) };
        obs(i, a.done(), b.done());
        match r {
            Err(()) => {
                if i % 2 == 0 {
                    o.a_err = true
                } else {
                    o.b_err = true
                }
                return o;
            }
            Ok(None) => return o,
            Ok(Some(x)) => {
                m = x;
                net(o.msgs, &mut m);
                o.msgs += 1;
            }
        }
        i += 1;
        if i > 16 {
            check("the protocol does not end", false);
            return o;
        }
    }
}

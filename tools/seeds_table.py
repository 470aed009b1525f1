"""Planted bugs (see seeds.py).  Each is written from the text of a property and the code."""
SEEDS = []


def seed(id, property, edits, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, **k))


L = 'latke/src/'
PAKE2 = '''
use crate::{Pake, PartyRole::*};
/// runs both parties to the end; None if somebody fails
#[allow(dead_code)]
fn run2<P: Pake>(a: &mut P, b: &mut P, net: impl Fn(usize, &mut Vec<u8>)) -> Option<()> {
    let mut m = vec![];
    for i in 0..8 {
        let r = if i % 2 == 0 { a.run(&m) } else { b.run(&m) };
        match r {
            Err(_) => return None,
            Ok(None) => return Some(()),
            Ok(Some(x)) => m = x,
        }
        net(i, &mut m);
    }
    None
}
'''
IBKE2 = '''
use crate::{IdentityBasedKeyExchange as Ibke, PartyRole::*};
/// a session of two users; None if somebody fails
#[allow(dead_code)]
fn run2<I: Ibke>(a: &mut I, b: &mut I, mut net: impl FnMut(usize, &mut Vec<u8>)) -> Option<()> {
    let mut m = vec![];
    for i in 0..8 {
        let r = if i % 2 == 0 { a.run(rand::thread_rng(), &m) } else { b.run(rand::thread_rng(), &m) };
        match r {
            Err(_) => return None,
            Ok(None) => return Some(()),
            Ok(Some(x)) => m = x,
        }
        net(i, &mut m);
    }
    None
}
#[allow(dead_code)]
fn user<I: Ibke>(msk: &I::MainPrivkey, id: [u8; 32]) -> (I::Certificate, I::UserPrivkey) {
    let (upk, usk) = I::gen_user_keypair(rand::thread_rng());
    (I::extract(rand::thread_rng(), msk, &id, &upk), usk)
}
'''

seed('P01-spake2-trim', 'P01', {L + 'pake/kc_spake2.rs': [('&[&self.password, PROTO_ID, incoming_msg, &out_msg, &pake_key]', '&[self.password.trim_ascii_end(), PROTO_ID, incoming_msg, &out_msg, &pake_key]')]},
     'a password that ends in ASCII white space', 'the responder derives its keys from the trimmed password, the initiator from the full one: an honest session fails',
     rust=PAKE2 + '''
use crate::pake::kc_spake2::KcSpake2;
#[test]
fn trailing_space() {
    for pw in [&b"secret"[..], b"secret ", b"secret\\n", b""] {
        let mut a = KcSpake2::new(rand::thread_rng(), [7; 32], pw, Initiator);
        let mut b = KcSpake2::new(rand::thread_rng(), [7; 32], pw, Responder);
        assert!(run2(&mut a, &mut b, |_, _| ()).is_some());
        assert_eq!(a.finalize(), b.finalize());
    }
}
''')
seed('P02-spake2-nul', 'P02', {L + 'pake/kc_spake2.rs': [('            &Password::new(password),', '            &Password::new(Self::canonical(password)),'),
                                                         ('            password: password.to_vec(),', '            password: Self::canonical(password).to_vec(),'),
                                                         ('impl Pake for KcSpake2 {', '''impl KcSpake2 {
    /// Passwords that come from C callers may carry a terminator
    fn canonical(password: &[u8]) -> &[u8] {
        match password.split_last() {
            Some((0, rest)) => rest,
            _ => password,
        }
    }
}

impl Pake for KcSpake2 {''')]},
     'two passwords that differ in one trailing NUL byte', 'different passwords lead to the same KC-SPAKE2 key',
     rust=PAKE2 + '''
use crate::pake::kc_spake2::KcSpake2;
#[test]
fn trailing_nul() {
    for (p, q) in [(&b"secret"[..], &b"secret\\0"[..]), (b"", b"\\0"), (b"abc", b"abd")] {
        let mut a = KcSpake2::new(rand::thread_rng(), [7; 32], p, Initiator);
        let mut b = KcSpake2::new(rand::thread_rng(), [7; 32], q, Responder);
        assert!(run2(&mut a, &mut b, |_, _| ()).is_none());
    }
}
''')
seed('P02-cpace-utf8', 'P02', {L + 'pake/cpace.rs': [('let password = BASE64_STANDARD.encode(&password);', 'let password = match std::str::from_utf8(password) {\n            Ok(text) => BASE64_STANDARD.encode(text.to_lowercase()),\n            Err(_) => BASE64_STANDARD.encode(&password),\n        };')]},
     'two text passwords that differ in the case of a letter', 'different passwords lead to the same CPace key',
     rust=PAKE2 + '''
use crate::pake::cpace::Cpace;
#[test]
fn case() {
    for (p, q) in [(&b"secret"[..], &b"Secret"[..]), (b"1", b"2")] {
        let mut a = Cpace::new(rand::thread_rng(), [7; 32], p, Initiator);
        let mut b = Cpace::new(rand::thread_rng(), [7; 32], q, Responder);
        let done = run2(&mut a, &mut b, |_, _| ()).is_some();
        assert!(!done || a.finalize() != b.finalize());
    }
}
''')
seed('P02-cake-ssid', 'P02', {L + 'pake/cake.rs': [('hk.expand_multi_info(&[&[domain_sep], ssid], &mut key)', 'hk.expand_multi_info(&[&[domain_sep], &ssid[..ssid.len() / 2]], &mut key)', 2)]},
     'two subsession ids that share their first 16 bytes', 'parties of different subsessions agree on a CAKE key',
     rust=PAKE2 + '''
use crate::pake::cake::Cake;
#[test]
fn ssid() {
    for i in [0, 15, 16, 31] {
        let mut s = [7; 32];
        s[i] ^= 1;
        let mut a = Cake::new(rand::thread_rng(), [7; 32], b"pw", Initiator);
        let mut b = Cake::new(rand::thread_rng(), s, b"pw", Responder);
        run2(&mut a, &mut b, |_, _| ()).unwrap();
        assert_ne!(a.finalize(), b.finalize());
    }
}
''')
seed('P03-mac-prefix', 'P03', {L + 'pake/kc_spake2.rs': [('if !bool::from(mac1.ct_eq(&incoming_mac1)) {', 'if !bool::from(mac1[..16].ct_eq(&incoming_mac1[..16])) {')]},
     'a confirmation value altered in its second half only', 'an altered confirmation value is accepted and both parties complete',
     rust=PAKE2 + '''
use crate::pake::kc_spake2::KcSpake2;
#[test]
fn altered_mac() {
    for i in [33, 48, 49, 64] {
        let mut a = KcSpake2::new(rand::thread_rng(), [7; 32], b"pw", Initiator);
        let mut b = KcSpake2::new(rand::thread_rng(), [7; 32], b"pw", Responder);
        assert!(run2(&mut a, &mut b, |k, m| if k == 1 { m[i] ^= 1 }).is_none());
    }
}
''')
seed('P03-reflect', 'P03', {L + 'pake/kc_spake2.rs': [('if !bool::from(self.macs.unwrap().0.ct_eq(&incoming_mac0)) {', 'let (mac0, mac1) = self.macs.unwrap();\n                // either order of the confirmation values is fine\n                if !bool::from(mac0.ct_eq(&incoming_mac0) | mac1.ct_eq(&incoming_mac0)) {')]},
     "the responder's own confirmation value is sent back to it", 'the responder completes although nobody confirmed the key',
     rust=PAKE2 + '''
use crate::pake::kc_spake2::KcSpake2;
#[test]
fn reflected() {
    let mut a = KcSpake2::new(rand::thread_rng(), [7; 32], b"pw", Initiator);
    let mut b = KcSpake2::new(rand::thread_rng(), [7; 32], b"pw", Responder);
    let m0 = a.run(&[]).unwrap().unwrap();
    let m1 = b.run(&m0).unwrap().unwrap();
    assert!(b.run(&m1[33..]).is_err());
}
''')
seed('P04-hmqv-id', 'P04', {L + 'ibke/id_hmqv_c.rs': [('.chain_update(eph_pk.compress().as_bytes())\n                        .chain_update(incoming_cert.id);', '.chain_update(eph_pk.compress().as_bytes())\n                        .chain_update(incoming_cert.id.trim_ascii_end());')]},
     'an initiator identity that ends in ASCII white space (padded names)', 'the HMQV exponents of the two users differ and an honest session fails',
     rust=IBKE2 + '''
use crate::ibke::id_hmqv_c::IdHmqvC as I;
#[test]
fn padded_names() {
    let (mpk, msk) = I::gen_main_keypair(rand::thread_rng());
    let mut n = [b' '; 32];
    n[..5].copy_from_slice(b"alice");
    for (x, y) in [([1; 32], [2; 32]), (n, [2; 32]), ([1; 32], n)] {
        let (ca, ka) = user::<I>(&msk, x);
        let (cb, kb) = user::<I>(&msk, y);
        let mut a = I::new_session(rand::thread_rng(), [7; 32], mpk, ca, ka, Initiator);
        let mut b = I::new_session(rand::thread_rng(), [7; 32], mpk, cb, kb, Responder);
        assert!(run2(&mut a, &mut b, |_, _| ()).is_some());
        assert_eq!(a.finalize().1, b.finalize().1);
    }
}
''')
seed('P05-fg-mac', 'P05', {L + 'ibke/fg_ibke.rs': [('if !bool::from(mac0.ct_eq(&incoming_mac0)) {', 'if !bool::from(mac0[..16].ct_eq(&incoming_mac0[..16])) {')]},
     'the last message altered in its second half only', 'an altered confirmation value is accepted: both users of Fiore-Gennaro-C complete',
     rust=IBKE2 + '''
use crate::ibke::fg_ibke::FgIbkeC as I;
#[test]
fn altered_mac() {
    let (mpk, msk) = I::gen_main_keypair(rand::thread_rng());
    for i in [0, 15, 16, 31] {
        let (ca, ka) = user::<I>(&msk, [1; 32]);
        let (cb, kb) = user::<I>(&msk, [2; 32]);
        let mut a = I::new_session(rand::thread_rng(), [7; 32], mpk, ca, ka, Initiator);
        let mut b = I::new_session(rand::thread_rng(), [7; 32], mpk, cb, kb, Responder);
        assert!(run2(&mut a, &mut b, |k, m| if k == 2 { m[i] ^= 1 }).is_none());
    }
}
''')
seed('P05-sigdh-transcript', 'P05', {L + 'ibke/id_sig_dh.rs': [('&[&[0x01], self.ssid.as_slice(), incoming_eph_pk.as_bytes()].concat(),', '&[&[0x01], self.ssid.as_slice(), &incoming_eph_pk.as_bytes()[..31]].concat(),'),
                                                                ('.sign(&[&[0x01], self.ssid.as_slice(), eph_pk.as_bytes()].concat());', '.sign(&[&[0x01], self.ssid.as_slice(), &eph_pk.as_bytes()[..31]].concat());'),
                                                                ('                        &incoming_eph_pk_bytes,\n                    ],', '                        &incoming_eph_pk_bytes[..31],\n                    ],'),
                                                                ('                        &incoming_eph_pk_bytes,\n                        eph_pk.as_bytes().as_slice(),', '                        &incoming_eph_pk_bytes,\n                        &eph_pk.as_bytes()[..31],')]},
     "the top bit of the responder's ephemeral key flipped in transit (x25519 ignores it)", 'an altered message is accepted and both users of signed DH hold the same key',
     rust=IBKE2 + '''
use crate::ibke::id_sig_dh::IdSigDh as I;
#[test]
fn top_bit() {
    let (mpk, msk) = I::gen_main_keypair(rand::thread_rng());
    for (i, bit) in [(0, 1), (31, 1), (31, 128)] {
        let (ca, ka) = user::<I>(&msk, [1; 32]);
        let (cb, kb) = user::<I>(&msk, [2; 32]);
        let mut a = I::new_session(rand::thread_rng(), [7; 32], mpk, ca, ka, Initiator);
        let mut b = I::new_session(rand::thread_rng(), [7; 32], mpk, cb, kb, Responder);
        let done = run2(&mut a, &mut b, |k, m| if k == 1 { m[i] ^= bit }).is_some();
        assert!(!done || a.finalize().1 != b.finalize().1);
    }
}
''')
seed('P06-hmqv-own-id', 'P06', {L + 'ibke/id_hmqv_c.rs': [('''                // Verify the certificate
                self.mpk.verify(
                    &[
                        &incoming_cert.id[..],
                        incoming_cert.upk.compress().as_bytes(),
                    ]
                    .concat(),
                    &incoming_cert.upk_sig,
                )?;
                // If that all works out, then we can use the other user's pubkey and ID
                let other_upk = incoming_cert.upk;
                self.output_id = Some(incoming_cert.id);

                // Make a new''', '''                // Verify the certificate, unless it is for this very user (another device)
                if incoming_cert.id != self.my_cert.id {
                    self.mpk.verify(
                        &[
                            &incoming_cert.id[..],
                            incoming_cert.upk.compress().as_bytes(),
                        ]
                        .concat(),
                        &incoming_cert.upk_sig,
                    )?;
                }
                // If that all works out, then we can use the other user's pubkey and ID
                let other_upk = incoming_cert.upk;
                self.output_id = Some(incoming_cert.id);

                // Make a new''')]},
     "a forged certificate that names the victim itself", 'the responder completes with a peer whose certificate was never issued',
     rust=IBKE2 + '''
use crate::ibke::id_hmqv_c::IdHmqvC as I;
#[test]
fn forged() {
    let (mpk, msk) = I::gen_main_keypair(rand::thread_rng());
    let (_, other) = I::gen_main_keypair(rand::thread_rng());
    for id in [[1; 32], [2; 32]] {
        let (ca, ka) = user::<I>(&other, id);
        let (cb, kb) = user::<I>(&msk, [2; 32]);
        let (_, _) = (&ca, &ka);
        let mut a = I::new_session(rand::thread_rng(), [7; 32], mpk, ca, ka, Initiator);
        let mut b = I::new_session(rand::thread_rng(), [7; 32], mpk, cb, kb, Responder);
        let m = a.run(rand::thread_rng(), &[]).unwrap().unwrap();
        assert!(b.run(rand::thread_rng(), &m).is_err());
    }
}
''')
seed('P06-sigma-cert-id', 'P06', {L + 'ibke/id_sigma_r.rs': [('&[&incoming_cert.id, incoming_cert.upk.as_bytes()].concat(),', '&[incoming_cert.upk.as_bytes()].concat(),', 2),
                                                             ('CERTSIGN', '')]},
     'a genuine certificate whose identity field is replaced by its owner', 'SIGMA-R reports an identity that was never certified for that key', skip=True)
seed('P07-sigdh-ssid', 'P07', {L + 'ibke/id_sig_dh.rs': [('[&[0x00], self.ssid.as_slice(), ', '[&[0x00], &self.ssid[..4], ', 2), ('[&[0x01], self.ssid.as_slice(), ', '[&[0x01], &self.ssid[..4], ', 2)]},
     "a recorded message of another subsession whose id shares its first four bytes", "a recorded signed DH message is accepted in another subsession",
     rust=IBKE2 + '''
use crate::ibke::id_sig_dh::IdSigDh as I;
#[test]
fn other_subsession() {
    let (mpk, msk) = I::gen_main_keypair(rand::thread_rng());
    let (ca, ka) = user::<I>(&msk, [1; 32]);
    let (cb, kb) = user::<I>(&msk, [2; 32]);
    for i in [0, 3, 4, 31] {
        let mut s = [7; 32];
        s[i] ^= 1;
        let mut a = I::new_session(rand::thread_rng(), [7; 32], mpk, ca.clone(), ka.clone(), Initiator);
        let m = a.run(rand::thread_rng(), &[]).unwrap().unwrap();
        let mut b = I::new_session(rand::thread_rng(), s, mpk, cb.clone(), kb.clone(), Responder);
        assert!(b.run(rand::thread_rng(), &m).is_err());
    }
}
''')
seed('P07-sigma-nonce', 'P07', {L + 'ibke/id_sigma_r.rs': [('''                        &[0x01],
                        self.nonces.0.as_ref().unwrap().as_slice(),
                        &self.ssid,
                        self.encapped_key''', '''                        &[0x01],
                        &self.ssid,
                        self.encapped_key''', 2)]},
     'not confirmed to be exploitable', '', skip=True)
seed('P08-fg-ssid', 'P08', {L + 'ibke/fg_ibke.rs': [('hk.expand_multi_info(&[&self.ssid, b"fgibke-final"], &mut sess_key)', 'hk.expand_multi_info(&[&self.ssid[..16], b"fgibke-final"], &mut sess_key)')]},
     'two subsession ids that share their first 16 bytes', 'users of different subsessions complete Fiore-Gennaro-C with the same key',
     rust=IBKE2 + '''
use crate::ibke::fg_ibke::FgIbkeC as I;
#[test]
fn ssid() {
    let (mpk, msk) = I::gen_main_keypair(rand::thread_rng());
    for i in [0, 15, 16, 31] {
        let mut s = [7; 32];
        s[i] ^= 1;
        let (ca, ka) = user::<I>(&msk, [1; 32]);
        let (cb, kb) = user::<I>(&msk, [2; 32]);
        let mut a = I::new_session(rand::thread_rng(), [7; 32], mpk, ca, ka, Initiator);
        let mut b = I::new_session(rand::thread_rng(), s, mpk, cb, kb, Responder);
        let done = run2(&mut a, &mut b, |_, _| ()).is_some();
        assert!(!done || a.finalize().1 != b.finalize().1);
    }
}
''')
seed('P09-hmqv-ids', 'P09', {L + 'ibke/id_hmqv_c.rs': [('''                        .chain_update(eph_pk.compress().as_bytes())
                        .chain_update(incoming_cert.id);''', '''                        .chain_update(eph_pk.compress().as_bytes())
                        .chain_update(incoming_cert.upk.compress().as_bytes());'''),
                                                      ('''                        .chain_update(incoming_eph_pk_bytes)
                        .chain_update(self.my_cert.id);
                    Scalar::from_hash(hash)
                };
                let sigma =
                    (incoming_eph_pk + e''', '''                        .chain_update(incoming_eph_pk_bytes)
                        .chain_update(self.my_cert.upk.compress().as_bytes());
                    Scalar::from_hash(hash)
                };
                let sigma =
                    (incoming_eph_pk + e''')]},
     "a second certificate for the initiator's key, substituted in the first message", 'the responder completes with the same key under the wrong identity of the initiator',
     rust=IBKE2 + '''
use crate::ibke::id_hmqv_c::IdHmqvC as I;
#[test]
fn second_certificate() {
    let (mpk, msk) = I::gen_main_keypair(rand::thread_rng());
    let (upk, ka) = I::gen_user_keypair(rand::thread_rng());
    let ca = I::extract(rand::thread_rng(), &msk, &[1; 32], &upk);
    let ce = I::extract(rand::thread_rng(), &msk, &[3; 32], &upk);
    let (cb, kb) = user::<I>(&msk, [2; 32]);
    let mut e = I::new_session(rand::thread_rng(), [7; 32], mpk, ce, ka.clone(), Initiator);
    let me = e.run(rand::thread_rng(), &[]).unwrap().unwrap();
    let mut a = I::new_session(rand::thread_rng(), [7; 32], mpk, ca, ka, Initiator);
    let mut b = I::new_session(rand::thread_rng(), [7; 32], mpk, cb, kb, Responder);
    let done = run2(&mut a, &mut b, |k, m| if k == 0 { m[32..].copy_from_slice(&me[32..]) }).is_some();
    assert!(!done || a.finalize().1 != b.finalize().1 || b.finalize().0 == [1; 32]);
}
''')
seed('P10-hmqv-derived', 'P10', {L + 'ibke/id_hmqv_c.rs': [('''                // Make a new ephemeral keypair
                let (eph_pk, eph_sk) = Self::gen_user_keypair(&mut rng);
''', '''                // Make a new ephemeral keypair. Deriving it from the session saves entropy on small devices
                let eph_sk = Scalar::from_hash(
                    MyHash512::new()
                        .chain_update(self.usk.as_bytes())
                        .chain_update(self.ssid)
                        .chain_update(incoming_eph_pk_bytes),
                );
                let eph_pk = UserPubkey::mul_base(&eph_sk);
''')]},
     "the initiator's first message delivered twice under one subsession id", "the responder repeats its ephemeral key, so the session key does not depend on its fresh randomness",
     rust=IBKE2 + '''
use crate::ibke::id_hmqv_c::IdHmqvC as I;
#[test]
fn same_first_message() {
    let (mpk, msk) = I::gen_main_keypair(rand::thread_rng());
    let (ca, ka) = user::<I>(&msk, [1; 32]);
    let (cb, kb) = user::<I>(&msk, [2; 32]);
    let mut a = I::new_session(rand::thread_rng(), [7; 32], mpk, ca, ka, Initiator);
    let m = a.run(rand::thread_rng(), &[]).unwrap().unwrap();
    let r: Vec<_> = (0..2).map(|_| {
        let mut b = I::new_session(rand::thread_rng(), [7; 32], mpk, cb.clone(), kb.clone(), Responder);
        b.run(rand::thread_rng(), &m).unwrap().unwrap()
    }).collect();
    assert_ne!(r[0][..32], r[1][..32]);
}
''')
seed('P10-cake-cache', 'P10', {L + 'pake/cake.rs': [('let (pk, sk) = kem_keygen();', '''// Key generation is slow, so one ephemeral keypair serves the whole thread
                thread_local! {
                    static EPHEMERAL: std::cell::RefCell<Option<(INDCPAPublicKey, INDCPASecretKey)>> =
                        std::cell::RefCell::new(None);
                }
                let (pk, sk) = EPHEMERAL
                    .with(|e| e.borrow_mut().get_or_insert_with(kem_keygen).clone());''')]},
     'two sessions started by one thread', 'the ephemeral KEM key of CAKE is reused by later sessions',
     rust=PAKE2 + '''
use crate::pake::cake::Cake;
#[test]
fn two_sessions() {
    let m: Vec<_> = (0..2).map(|_| Cake::new(rand::thread_rng(), [7; 32], b"pw", Initiator).run(&[]).unwrap().unwrap()).collect();
    assert_ne!(m[0], m[1]);
}
''')
seed('P11-nonce-mac', 'P11', {L + 'auth_enc.rs': [('''        .chain_update(&ciphertext)
        .finalize()''', '''        .chain_update(&ciphertext[..msg.len()])
        .finalize()'''), ('.chain_update(&ciphertext_and_nonce)', '.chain_update(&ciphertext)')]},
     'a change in the nonce only', 'an altered nonce is not detected: decryption returns garbage instead of an error',
     rust='''
use crate::auth_enc::*;
#[test]
fn nonce() {
    for n in [0, 1, 40] {
        let msg = vec![5; n];
        let c = auth_encrypt(rand::thread_rng(), [9; 64], &msg);
        assert_eq!(auth_decrypt([9; 64], &c).unwrap(), msg);
        for i in 0..c.len() {
            let mut d = c.clone();
            d[i] ^= 4;
            assert!(auth_decrypt([9; 64], &d).is_err());
        }
    }
}
''')
seed('P11-empty', 'P11', {L + 'auth_enc.rs': [('    // Check the MAC\n', '    // There is nothing to authenticate in an empty message\n    if ciphertext.is_empty() {\n        return Ok(Vec::new());\n    }\n\n    // Check the MAC\n')]},
     'a message of length zero', 'any 44 bytes decrypt to the empty message',
     rust='''
use crate::auth_enc::*;
#[test]
fn empty() {
    let c = auth_encrypt(rand::thread_rng(), [9; 64], &[]);
    assert_eq!(auth_decrypt([9; 64], &c).unwrap(), []);
    assert!(auth_decrypt([8; 64], &c).is_err());
    assert!(auth_decrypt([9; 64], &[0; 44]).is_err());
}
''')
seed('P12-domain', 'P12', {L + 'ideal_cipher.rs': [("let hkl = eval_deck(key, b'h', 0x00, &left, r0.len());", "let hkl = eval_deck(key, b'h', 0x00, &left[..15], r0.len());", 2)]},
     'two blocks that differ in their sixteenth byte only', 'one byte of the left half takes no part in the first round of the wide-block cipher',
     rust='''
use crate::ideal_cipher::*;
#[test]
fn first_round() {
    // a change of any byte of the left half must change the block everywhere
    let mut x = vec![3u8; 64];
    wide_block_encrypt(&[1; 32], &mut x);
    for i in 0..16 {
        let mut y = vec![3u8; 64];
        y[i] ^= 1;
        wide_block_encrypt(&[1; 32], &mut y);
        wide_block_decrypt(&[1; 32], &mut y);
        assert_eq!(y[i], 2);
    }
    // independent reimplementation of the first round
    use crypto_permutation::{DeckFunction, Reader, Writer};
    use deck_farfalle::{kravatte::KravatteConfig, Farfalle};
    let f = |d: u8, s: u8, inp: &[u8], n: usize| {
        let mut p = Farfalle::<KravatteConfig>::init_default(&[1; 32]);
        let mut w = p.input_writer();
        w.write_bytes(&[d]).unwrap();
        w.write_bytes(inp).unwrap();
        w.write_bytes(&[s]).unwrap();
        w.finish();
        let mut o = vec![0u8; n];
        p.output_reader().write_to_slice(&mut o).unwrap();
        o
    };
    let mut b = vec![3u8; 64];
    let xor = |d: &mut [u8], s: Vec<u8>| for (a, b) in d.iter_mut().zip(s) { *a ^= b };
    let s = f(b'h', 0, &b[..16].to_vec(), 16);
    xor(&mut b[16..32], s);
    let s = f(b'g', 1, &b[16..].to_vec(), 16);
    xor(&mut b[..16], s);
    let s = f(b'g', 0, &b[..16].to_vec(), 48);
    xor(&mut b[16..], s);
    let s = f(b'h', 1, &b[16..].to_vec(), 16);
    xor(&mut b[..16], s);
    assert_eq!(b, x);
}
''')
seed('P13-resume', 'P13', {L + 'eue_transform.rs': [('!self.next_step_is_first && self.real_mode {', '!self.next_step_is_first {'),
                                                    ('''            } else {
                Some(pt.unwrap())
            }''', '''            } else {
                // A message that decrypts means that the peer is there
                self.real_mode = true;
                Some(pt.unwrap())
            }''')]}, 'a session that failed receives a genuine later message', 'a failed session goes back to real mode', skip=True)
seed('P14-one-key', 'P14', {L + 'eue_transform.rs': [('        hk.expand(b"msg key", &mut self.msg_key).unwrap();\n', '')]},
     'a message of the session delivered in place of another one', 'every message is encrypted under the same key, so replayed and reflected messages decrypt', skip=True)
seed('P14-eue-ssid', 'P14', {L + 'eue_transform.rs': [('&[&b"init chain key"[..], &ssid[..]]', '&[&b"init chain key"[..]]'), ('&[&b"init msg key"[..], &ssid[..]]', '&[&b"init msg key"[..]]')]},
     'one initial key used under two subsession ids', 'a message encrypted in one subsession is accepted in another', 
     rust=IBKE2 + '''
use crate::{eue_transform::Eue, ibke::fg_ibke::FgIbkeC as I};
#[test]
fn other_subsession() {
    let (mpk, msk) = I::gen_main_keypair(rand::thread_rng());
    let (ca, ka) = user::<I>(&msk, [1; 32]);
    let (cb, kb) = user::<I>(&msk, [2; 32]);
    let mut a = Eue::<I>::new_session(rand::thread_rng(), [7; 32], mpk, ca, ka, Initiator, [5; 32]);
    let mut b = Eue::<I>::new_session(rand::thread_rng(), [8; 32], mpk, cb, kb, Responder, [5; 32]);
    let mut m = vec![];
    for i in 0..4 {
        let r = if i % 2 == 0 { a.run(rand::thread_rng(), &m) } else { b.run(rand::thread_rng(), &m) };
        m = r.unwrap().unwrap_or(vec![]);
    }
    // nothing was accepted: neither side has a key
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.finalize())).is_err());
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.finalize())).is_err());
}
''')
seed('P15-null-peer', 'P15', {L + 'latke.rs': [('            PeerModel::PreSpecified(id) => {\n', '            // The null identity stands for an unknown peer\n            PeerModel::PreSpecified(id) if id == [0u8; 32] => {\n                P::new(&mut rng, ssid, pwfile.mpk.as_bytes(), role)\n            }\n            PeerModel::PreSpecified(id) => {\n')]},
     'a pre-specified peer whose identity is all zero', 'an honest session with that peer fails',
     rust=PAKE2.replace('use crate::{Pake', 'use crate::{latke::*, ibke::fg_ibke::FgIbkeC as I, pake::cpace::Cpace as P') .split('#[allow')[0].replace('/// runs both parties to the end; None if somebody fails\n', '').replace(', PartyRole', ', Id, PartyRole') + '''
fn session(x: Id, y: Id) {
    let mut rng = rand::thread_rng();
    let fa = Latke::<I, P>::gen_pwfile(&mut rng, b"pw", &x);
    let fb = Latke::<I, P>::gen_pwfile(&mut rng, b"pw", &y);
    let mut a = Latke::<I, P>::new_session(&mut rng, [7; 32], fa, Initiator, PeerModel::PreSpecified(y));
    let mut b = Latke::<I, P>::new_session(&mut rng, [7; 32], fb, Responder, PeerModel::PreSpecified(x));
    let mut m = vec![];
    for i in 0.. {
        let u = if i % 2 == 0 { &mut a } else { &mut b };
        if u.is_done() { break }
        m = u.run(&mut rng, &m).unwrap_or(vec![]);
    }
    assert_eq!(a.finalize().1, b.finalize().1);
}
#[test]
fn peers() {
    session([1; 32], [2; 32]);
    session([0; 32], [2; 32]);
    session([1; 32], [0; 32]);
}
''')
LAT = '''
use crate::{ibke::*, latke::*, pake::*, Id, PartyRole::*};
use fg_ibke::FgIbkeC as I;
use cpace::Cpace as P;
/// both completed, with the same key?
fn agree(x: (&[u8], Id, Id), y: (&[u8], Id, Id)) -> bool {
    let r = std::panic::catch_unwind(|| {
        let mut rng = rand::thread_rng();
        let fa = Latke::<I, P>::gen_pwfile(&mut rng, x.0, &x.1);
        let fb = Latke::<I, P>::gen_pwfile(&mut rng, y.0, &y.1);
        let mut a = Latke::<I, P>::new_session(&mut rng, [7; 32], fa, Initiator, PeerModel::PreSpecified(x.2));
        let mut b = Latke::<I, P>::new_session(&mut rng, [7; 32], fb, Responder, PeerModel::PreSpecified(y.2));
        let mut m = vec![];
        for i in 0.. {
            let u = if i % 2 == 0 { &mut a } else { &mut b };
            if u.is_done() { break }
            m = u.run(&mut rng, &m).unwrap_or(vec![]);
        }
        a.finalize().1 == b.finalize().1
    });
    r.unwrap_or(false)
}
'''
seed('P16-peer-prefix', 'P16', {L + 'latke.rs': [('let pake_input = [pwfile.mpk.as_bytes(), &ids.0[..], &ids.1[..]].concat();', 'let pake_input = [pwfile.mpk.as_bytes(), &ids.0[..16], &ids.1[..16]].concat();')]},
     'an expected identity that differs from the actual one in its last 16 bytes only', 'a pre-specified peer with another identity is accepted',
     rust=LAT + '''
#[test]
fn wrong_peer() {
    let mut w = [2; 32];
    w[20] = 9;
    assert!(agree((b"pw", [1; 32], [2; 32]), (b"pw", [2; 32], [1; 32])));
    assert!(!agree((b"pw", [1; 32], w), (b"pw", [2; 32], [1; 32])));
    assert!(!agree((b"pw", [1; 32], [2; 32]), (b"pw", [2; 32], w)));
}
''')
seed('P17-user-key', 'P17', {L + 'latke.rs': [('let (upk, usk) = I::gen_user_keypair(&mut rng);', 'let (upk, usk) = I::gen_user_keypair(&mut pw_based_rng);')]},
     'two password files of one password', 'user keys come from the password instead of fresh randomness',
     rust='''
use crate::{ibke::id_hmqv_c::IdHmqvC, latke::*, pake::cpace::Cpace, AsBytes, IdentityBasedKeyExchange as I, PartyRole::*};
#[test]
fn fresh_user_keys() {
    let mut rng = rand::thread_rng();
    // the first message of an HMQV-C session carries the user public key at 32 + 32
    let _ = |x: &ed25519_dalek::VerifyingKey| AsBytes::as_bytes(x).to_vec();
    let k: Vec<_> = (0..2).map(|_| {
        let f = Latke::<IdHmqvC, Cpace>::gen_pwfile(&mut rng, b"pw", &[1; 32]);
        let (mpk, cert, usk) = f.planted_parts();
        let mut s = IdHmqvC::new_session(&mut rng, [7; 32], mpk, cert, usk, Initiator);
        s.run(&mut rng, &[]).unwrap().unwrap()[64..96].to_vec()
    }).collect();
    assert_ne!(k[0], k[1]);
}
''', appendto=L + 'latke.rs', append='''
#[cfg(test)]
impl<I: IdentityBasedKeyExchange> LatkePwfile<I> {
    pub(crate) fn planted_parts(self) -> (I::MainPubkey, I::Certificate, I::UserPrivkey) {
        (self.mpk, self.cert, self.usk)
    }
}
''')
seed('P17-seed-trim', 'P17', {L + 'latke.rs': [('let seed = MyHash256::digest(password);', 'let seed = MyHash256::digest(password.strip_suffix(b"\\n").unwrap_or(password));')]},
     'two passwords that differ in one trailing newline', 'different passwords give the same main public key',
     rust='''
use crate::{ibke::fg_ibke::FgIbkeC, latke::*, pake::cpace::Cpace};
#[test]
fn newline() {
    let mut rng = rand::thread_rng();
    let k: Vec<_> = [&b"pw"[..], b"pw\\n", b"\\n", b""].iter().map(|p| Latke::<FgIbkeC, Cpace>::gen_pwfile(&mut rng, p, &[1; 32]).planted_mpk()).collect();
    for i in 0..4 {
        for j in 0..i {
            assert_ne!(k[i], k[j]);
        }
    }
}
''', appendto=L + 'latke.rs', append='''
#[cfg(test)]
impl<I: IdentityBasedKeyExchange> LatkePwfile<I> {
    pub(crate) fn planted_mpk(&self) -> Vec<u8> {
        AsBytes::as_bytes(&self.mpk).to_vec()
    }
}
''')
seed('P18-id-byte', 'P18', {L + 'chip.rs': [('.chain_update(&id)', '.chain_update(&id[..31])'), ('.chain_update(&self.other_id)', '.chain_update(&self.other_id[..31])')]},
     'an expected identity that differs from the actual one in its last byte only', 'CHIP users agree although one expects somebody else',
     rust='''
use crate::{chip::*, pake::cpace::Cpace as P, Id, PartyRole::*};
fn agree(x: (Id, Id), y: (Id, Id)) -> bool {
    std::panic::catch_unwind(|| {
        let mut rng = rand::thread_rng();
        let fa = Chip::<P>::gen_pwfile(&mut rng, b"pw".to_vec(), x.0);
        let fb = Chip::<P>::gen_pwfile(&mut rng, b"pw".to_vec(), y.0);
        let mut a = Chip::<P>::new_session(&mut rng, [7; 32], fa, Initiator, x.1);
        let mut b = Chip::<P>::new_session(&mut rng, [7; 32], fb, Responder, y.1);
        let mut m = vec![];
        for i in 0..8 {
            let r = if i % 2 == 0 { a.run(&mut rng, &m) } else { b.run(&mut rng, &m) };
            match r.unwrap() {
                None => break,
                Some(x) => m = x,
            }
        }
        a.finalize() == b.finalize()
    }).unwrap_or(false)
}
#[test]
fn wrong_peer() {
    assert!(agree(([1; 32], [2; 32]), ([2; 32], [1; 32])));
    for i in [0, 30, 31] {
        let mut w = [2; 32];
        w[i] = 0;
        assert!(!agree(([1; 32], w), ([2; 32], [1; 32])));
    }
}
''')
seed('P19-fg-done-first', 'P19', {L + 'ibke/fg_ibke.rs': [('''                let mac0 = self.macs.as_ref().unwrap().0;

''', '''                let mac0 = self.macs.as_ref().unwrap().0;

                // This was the last message
                self.done = true;

''')]}, 'a wrong last message', 'the responder of Fiore-Gennaro-C reports completion and releases a key although key confirmation failed',
     rust=IBKE2 + '''
use crate::ibke::fg_ibke::FgIbkeC as I;
#[test]
fn wrong_mac() {
    let (mpk, msk) = I::gen_main_keypair(rand::thread_rng());
    let (ca, ka) = user::<I>(&msk, [1; 32]);
    let (cb, kb) = user::<I>(&msk, [2; 32]);
    let mut a = I::new_session(rand::thread_rng(), [7; 32], mpk, ca, ka, Initiator);
    let mut b = I::new_session(rand::thread_rng(), [7; 32], mpk, cb, kb, Responder);
    let m = a.run(rand::thread_rng(), &[]).unwrap().unwrap();
    b.run(rand::thread_rng(), &m).unwrap();
    assert!(b.run(rand::thread_rng(), &[0; 32]).is_err());
    assert!(!b.is_done());
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.finalize())).is_err());
}
''')
seed('P20-mac-is-key', 'P20', {L + 'pake/kc_spake2.rs': [('let (macs, output_key) = sess_hash.split_at(64);', 'let (macs, _) = sess_hash.split_at(64);\n                let output_key = &sess_hash[32..64];', 2)]},
     'somebody reads the second message', 'the session key of KC-SPAKE2 is sent in the clear (as the confirmation value)',
     rust=PAKE2 + '''
use crate::pake::kc_spake2::KcSpake2;
#[test]
fn key_on_the_wire() {
    let mut a = KcSpake2::new(rand::thread_rng(), [7; 32], b"pw", Initiator);
    let mut b = KcSpake2::new(rand::thread_rng(), [7; 32], b"pw", Responder);
    let m0 = a.run(&[]).unwrap().unwrap();
    let m1 = b.run(&m0).unwrap().unwrap();
    let m2 = a.run(&m1).unwrap().unwrap();
    b.run(&m2).unwrap();
    for m in [m0, m1, m2] {
        assert!(!m.windows(32).any(|w| w == a.finalize()));
    }
}
''')
SEEDS = [s for s in SEEDS if not s.get('skip')]

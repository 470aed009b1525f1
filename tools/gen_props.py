#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (run by hand after editing)."""
import json,os
P=[]
def prop(id,title,statement,over,quant,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
L="latke/src/"
prop("P01","Honest PAKE sessions agree",
 "Two parties that run any of the offered PAKEs (KC-SPAKE2, CPace, CAKE) in opposite roles with the same password and the same subsession id, and whose messages are delivered unmodified, both complete without error after the protocol's fixed number of messages. They then hold the same session key, and neither reports completion earlier than its own last step.",
 ["inputs"],"every subsession id, every password content, and every value of both parties' randomness",
 "The unit tests run each PAKE once on random inputs with one fixed password shape; a rule that misbehaves on particular byte values, or only for some randomness, is not reached.",
 [L+"pake/kc_spake2.rs",L+"pake/cpace.rs",L+"pake/cake.rs",L+"lib.rs"],[("message/step schedule of the Pake trait",L+"pake/*.rs run()"),("key derivation from the underlying PAKE/KEM output",L+"pake/*.rs")],["Pake::run","Pake::is_done","Pake::finalize"])
prop("P02","A PAKE key is bound to the password and the subsession",
 "Two parties whose passwords differ, or whose subsession ids differ, never end a PAKE run (KC-SPAKE2, CPace, CAKE) with equal session keys, even with all messages delivered unmodified. With KC-SPAKE2 the mismatch is detected: the initiator returns an error instead of completing.",
 ["inputs"],"every pair of passwords / subsession ids that differ anywhere, all randomness",
 "No test runs parties with different passwords or subsession ids, so dropping an input from a derivation is invisible to all of them.",
 [L+"pake/kc_spake2.rs",L+"pake/cpace.rs",L+"pake/cake.rs"],[("password and ssid as inputs of the PAKE and of the final KDF / cipher key",L+"pake/*.rs")],["Pake::run","Pake::finalize"])
prop("P03","KC-SPAKE2 key confirmation rejects every altered message",
 "In a KC-SPAKE2 session no alteration of a protocol message (same length, any content) leaves both parties completed: whoever receives a modified message, or whose peer's view differs, gets an error. The two confirmation values are role-separated, so a party never accepts its own confirmation value reflected back.",
 ["inputs","fault_sequences"],"every message position, every replacement content, every secret input",
 "Tests only deliver messages faithfully; no test alters a message or checks a rejection path.",
 [L+"pake/kc_spake2.rs"],[("transcript-derived MACs compared in constant time",L+"pake/kc_spake2.rs run()")],["Pake::run","Pake::is_done"])
prop("P04","Honest IBKE sessions agree on the key and on each other's identity",
 "Two users certified under the same main public key that run any of the offered IBKEs (HMQV-C, signed DH, Fiore-Gennaro-C, SIGMA-R over Ed25519 or Dilithium2) in opposite roles with the same subsession id and faithful delivery both complete without error. They hold the same session key, and each reports exactly the identity the other was certified for.",
 ["inputs"],"every pair of identities, every subsession id, all randomness of the key centre and both users",
 "The unit tests run each IBKE once with random inputs; agreement for every identity, subsession and randomness value is beyond samples.",
 [L+"ibke/id_hmqv_c.rs",L+"ibke/id_sig_dh.rs",L+"ibke/fg_ibke.rs",L+"ibke/id_sigma_r.rs"],[("DH/HMQV/FG algebra, KEM encapsulation, signature transcripts",L+"ibke/*.rs run()")],["IdentityBasedKeyExchange::run","finalize","is_done"])
prop("P05","Altered IBKE messages never leave both users with the same key",
 "If any message of an IBKE session between two honest certified users is altered in transit (same length, any content), the two users do not both complete with the same session key. In the protocols with key confirmation (HMQV-C, Fiore-Gennaro-C, SIGMA-R) at least one of them fails.",
 ["inputs","fault_sequences"],"every message position and replacement content for each IBKE",
 "Tests only exercise faithful delivery; the signature, MAC and transcript inputs that make this hold can be dropped without any test noticing.",
 [L+"ibke/id_hmqv_c.rs",L+"ibke/id_sig_dh.rs",L+"ibke/fg_ibke.rs",L+"ibke/id_sigma_r.rs"],[("certificate and transcript signatures, MACs, transcript hash",L+"ibke/*.rs run()")],["IdentityBasedKeyExchange::run","finalize"])
prop("P06","A reported peer identity always carries a valid certificate",
 "When a user completes a certificate-based IBKE session (HMQV-C, signed DH, SIGMA-R), the identity it reports was certified by the key centre of the main public key the session was started with, together with the public key used in the session. No message content, forged or recombined from other certificates, makes it report an identity with a key the centre never certified for it.",
 ["inputs"],"every content of every message the peer or the network can send",
 "No test presents an invalid, foreign or recombined certificate, so removing or weakening a verification passes the suite.",
 [L+"ibke/id_hmqv_c.rs",L+"ibke/id_sig_dh.rs",L+"ibke/id_sigma_r.rs"],[("certificate verification under the main public key over (id, user public key)",L+"ibke/*.rs run()")],["IdentityBasedKeyExchange::run","finalize"])
prop("P07","Signature-authenticated IBKEs accept only a peer live in this session",
 "In SIGMA-R and signed DH, a user completes with a certified peer identity only if that peer's certified key signed, in the opposite role, for this very subsession id and for the peer's ephemeral value this user received; in SIGMA-R also for the nonces and ephemeral values this user itself contributed. Messages and signatures from other subsessions, other ephemeral values or the same role are never accepted (signed DH relies on subsession ids being unique: a recorded message of the right role under the same subsession id is accepted there).",
 ["inputs","histories"],"every subsession id, ephemeral value and message content; one recorded session of the impersonated peer in either role",
 "No test replays signatures across sessions or roles; domain separators and signed fields can be removed unnoticed.",
 [L+"ibke/id_sigma_r.rs",L+"ibke/id_sig_dh.rs"],[("signature over (role, nonce, ssid, ephemerals, certificate)",L+"ibke/id_sigma_r.rs"),("signature over (role, ssid, ephemeral key)",L+"ibke/id_sig_dh.rs")],["IdentityBasedKeyExchange::run"])
prop("P08","An IBKE session is bound to its subsession id and main public key",
 "Two certified users that run an IBKE with different subsession ids never both complete with the same session key, even with faithful delivery. A user whose session uses another main public key than the one its peer was certified under never completes together with that peer on the same key.",
 ["inputs"],"every pair of different subsession ids or main keys, all randomness, each IBKE",
 "Tests always use one subsession id and one main key on both sides.",
 [L+"ibke/id_hmqv_c.rs",L+"ibke/id_sig_dh.rs",L+"ibke/fg_ibke.rs",L+"ibke/id_sigma_r.rs"],[("ssid in KDF info and signatures; certificate check under mpk",L+"ibke/*.rs")],["IdentityBasedKeyExchange::run","finalize"])
prop("P09","No identity misbinding between users who share a key",
 "If two honest users complete an HMQV-C, SIGMA-R or Fiore-Gennaro-C session with the same key, each of them reports the other's own identity. This holds even when the network substitutes a genuine certificate that the key centre issued to a different identity for the same user public key.",
 ["inputs","fault_sequences"],"every pair of distinct identities and every substitution of certificates/identities in transit",
 "Tests never register one key under two identities nor substitute certificates; dropping the identity from a hash, MAC or signature passes.",
 [L+"ibke/id_hmqv_c.rs",L+"ibke/id_sigma_r.rs",L+"ibke/fg_ibke.rs"],[("identities inside the HMQV exponents, the SIGMA MAC and signatures, the FG hash",L+"ibke/*.rs")],["IdentityBasedKeyExchange::finalize"])
prop("P10","Every session contributes fresh randomness from both parties",
 "Re-running any PAKE, IBKE, LATKE or CHIP session with the same passwords, identities, credentials and subsession id but fresh randomness for either one of the two parties yields a different session key; for the KEM-based CAKE (also inside CHIP) and SIGMA-R this holds for the responder, who alone chooses the encapsulated key. Ephemeral values, nonces and encryption nonces are drawn anew for each use by either party.",
 ["inputs","histories"],"all inputs, two sessions differing only in one party's fresh randomness",
 "A test that runs one session cannot see that a second one repeats a key; a reused or constant ephemeral still gives agreement.",
 [L+"pake",L+"ibke",L+"chip.rs",L+"latke.rs",L+"auth_enc.rs"],[("ephemeral generation in each step that sends one",L+"**/*.rs")],["run","finalize"])
prop("P11","Authenticated encryption round-trips and detects tampering at any length",
 "The message encryption layer returns the original message for every key, nonce and message of any length including zero, and its output is exactly 44 bytes longer than the message. Any change to ciphertext, nonce or tag, or decryption under a key with a different authentication half, is reported as an error; inputs shorter than the overhead are reported as an error too, never a crash.",
 ["inputs"],"every key and nonce; every message content; message lengths 0 to the stated bound; every modification of any byte; every too-short input",
 "The tests flip one random bit of a long message and sample one random length; truncations and short inputs crashed without any test noticing.",
 [L+"auth_enc.rs"],[("encrypt-then-MAC with ChaCha20 and HMAC",L+"auth_enc.rs")],["auth_encrypt","auth_decrypt"])
prop("P12","The wide-block cipher is an invertible, length-preserving, keyed permutation",
 "For every key and every block of at least 32 bytes, decryption undoes encryption and encryption undoes decryption, in place and without changing the length. Every byte of the block takes part in the transformation of both halves in both directions, different keys give different transformations of the same block, and the four rounds, their order and their domain separation are those of the documented Farfalle wide-block construction.",
 ["inputs"],"every key and block content, the block lengths stated",
 "One random 700-byte block is tested; boundary lengths and the decrypt-then-encrypt direction are not.",
 [L+"ideal_cipher.rs"],[("four-round Farfalle-WBC Feistel network",L+"ideal_cipher.rs")],["wide_block_encrypt","wide_block_decrypt"])
prop("P13","Encrypted IBKE sessions execute unconditionally and never leak a key on failure",
 "When an encrypted IBKE message fails to decrypt, the receiving party neither errors nor stops: it goes on producing messages of exactly the lengths an honest session would produce, and completes after the same number of steps. From then on it never releases a session key or peer identity.",
 ["inputs","fault_sequences"],"every message position, every altered content, each inner IBKE",
 "Only faithful delivery is tested; the failure mode was unreachable because an assertion fired first.",
 [L+"eue_transform.rs",L+"ibke/id_hmqv_c.rs",L+"ibke/id_sig_dh.rs",L+"ibke/fg_ibke.rs",L+"ibke/id_sigma_r.rs"],[("simulated mode after a decryption failure",L+"eue_transform.rs run()"),("message size simulation",L+"ibke/*.rs run_sim()")],["Eue::run","Eue::is_done","Eue::finalize","IdentityBasedKeyExchange::run_sim"])
prop("P14","Every encrypted IBKE message is protected under its own key",
 "With the same initial key and subsession id, the encrypted IBKE delivers exactly the inner protocol's messages and result; with a different initial key or subsession id nothing is accepted. Each message is encrypted under a key different from that of every other message, so replaying, reflecting or reordering a message of the session is never accepted.",
 ["inputs","histories"],"every initial key and subsession id, every earlier message replayed at every position",
 "The only test runs one faithful session with equal keys.",
 [L+"eue_transform.rs"],[("key ratchet before and after each step",L+"eue_transform.rs")],["Eue::run"])
prop("P15","Honest LATKE sessions agree for every instantiation and peer model",
 "Two users holding password files for the same password complete LATKE with faithful delivery in every supported combination of IBKE and PAKE, with pre-specified and with post-specified peers. They hold the same session key, each reports the other's identity, and completion is reported only when the embedded IBKE has completed.",
 ["inputs","configurations"],"every pair of identities, subsession id, password content, all randomness; five instantiations, two peer models",
 "One random run per instantiation is tested.",
 [L+"latke.rs",L+"eue_transform.rs"],[("PAKE phase feeding the encrypted IBKE phase",L+"latke.rs run()")],["Latke::run","Latke::is_done","Latke::finalize"])
prop("P16","LATKE keys bind password, subsession, expected peer and full transcript",
 "Two LATKE users never both complete with the same session key when their passwords differ, their subsession ids differ, a pre-specified peer identity differs from the actual one, or any message of the session was altered in transit.",
 ["inputs","fault_sequences"],"every mismatching input pair, every message position and replacement content",
 "Tests only run matching parties with faithful delivery.",
 [L+"latke.rs",L+"eue_transform.rs"],[("PAKE input (main public key, ordered identities), EUE key, running transcript hash",L+"latke.rs")],["Latke::run","Latke::finalize"])
prop("P17","A LATKE password file depends on the password only through its main key",
 "The main public key in a password file is a function of the password alone: files generated for the same password, whatever the identity and randomness, share it, and different passwords give different main public keys. The file's certificate names exactly the requested identity and verifies under that main key, and its user keys come from fresh randomness.",
 ["inputs"],"every password and identity, all randomness",
 "One equality of main public keys for one password is asserted.",
 [L+"latke.rs",L+"ibke"],[("password hash seeding the key centre generator",L+"latke.rs gen_pwfile()")],["Latke::gen_pwfile"])
prop("P18","CHIP agrees exactly when password, identities, subsession and messages match",
 "Two CHIP users with password files for the same password, each naming the other's identity, the same subsession id and faithful delivery complete with the same session key over every PAKE. If the passwords, the expected or own identities, the subsession ids or any delivered message differ, they never both complete with the same key.",
 ["inputs","fault_sequences"],"every password, identity pair, subsession id and randomness; every message alteration",
 "One matching run is tested; no mismatch or alteration is.",
 [L+"chip.rs"],[("identity-based key shares and transcript as the PAKE input",L+"chip.rs")],["Chip::run","Chip::finalize"])
prop("P19","A session key is released only after that session really completed",
 "Asking any PAKE or IBKE session for its result before its last step, while its latest step returned an error, or after simulated steps, never yields a key: it fails instead. Completion is reported exactly from the successful last real or simulated step on, and simulated steps announce the message lengths that real steps produce.",
 ["inputs","histories"],"every step of every protocol, every failing message content",
 "Tests ask for the result only at the end of a successful run; keys derived before verification were released after a failure.",
 [L+"pake",L+"ibke",L+"lib.rs"],[("completion flag and stored output",L+"**/*.rs finalize()/is_done()/run_sim()")],["finalize","is_done","run_sim"])
prop("P20","Protocol messages never carry secrets, and LATKE hides identities",
 "No protocol message of any PAKE, IBKE, LATKE or CHIP session contains the password, a long-term or ephemeral private value, or a session, MAC or encryption key in the clear. LATKE puts neither the users' identities, public keys and certificates nor the password-derived main public key in the clear on the wire, and CHIP no value computed from the password alone.",
 ["inputs"],"every secret value, identity and randomness of an honest session",
 "Tests never inspect message contents.",
 [L+"pake",L+"ibke",L+"latke.rs",L+"chip.rs",L+"eue_transform.rs"],[("message assembly of each step",L+"**/*.rs run()")],["messages returned by run"])
S="saber-rust/src/"
prop("S01","Saber polynomial and key encodings are lossless",
 "Encoding a polynomial at any of the packed widths (3, 4, 6, 10 and 13 bits) and the message encoding, then decoding, returns every coefficient unchanged, and decoding then encoding returns every byte unchanged. The same holds for public keys, secret keys and ciphertexts of all three parameter sets, and byte strings of a wrong length are refused.",
 ["inputs"],"every coefficient / byte value at every position, all parameter sets",
 "Known-answer tests and random round trips through full encryptions do not cover each bit of each position; one bit of the 3-bit packing was lost for years (the README's unexplained decapsulation errors).",
 [S+"poly.rs",S+"generic.rs",S+"newtype.rs"],[("bit packing",S+"poly.rs")],["public/secret key and ciphertext to_bytes/from_bytes"])
prop("S02","Saber ring arithmetic is exact negacyclic arithmetic modulo 2^16",
 "Polynomial addition, subtraction and multiplication, and the vector and matrix products built from them, compute exactly in the ring of polynomials of degree below 256 modulo X^256+1 with coefficients modulo 2^16.",
 ["inputs"],"all coefficient values of both operands",
 "Tests multiply a few random operands via complete encryptions.",
 [S+"poly.rs",S+"generic.rs"],[("polynomial multiplication",S+"poly.rs"),("matrix-vector and inner products",S+"generic.rs")],["keygen/encapsulate/decapsulate"])
prop("S03","Saber decryption recovers the message whenever the noise is within tolerance",
 "For every parameter set, decrypting a ciphertext recovers every message bit as long as the combined rounding and secret noise of that coefficient stays inside the decoding interval of the parameter set. In particular the reconciliation constants, shifts and masks used in encryption and decryption fit together.",
 ["inputs"],"every message bit, every coefficient value and every noise value inside the tolerance",
 "Random round trips hit rare coefficient values too seldom; failures at 2^-18 go unnoticed.",
 [S+"generic.rs",S+"params.rs",S+"lightsaber.rs",S+"saber.rs",S+"firesaber.rs"],[("reconciliation",S+"generic.rs")],["encapsulate_ind_cpa/decapsulate_ind_cpa"])
prop("S04","Saber CCA decapsulation implicitly rejects every altered ciphertext",
 "Decapsulating a ciphertext that is not byte-for-byte the re-encryption of the decrypted message yields a secret derived from the secret key's rejection value, not the honest secret; a faithful ciphertext yields exactly the encapsulator's secret. The comparison covers every byte of the ciphertext.",
 ["inputs"],"every ciphertext content of every parameter set, every difference position",
 "Tests decapsulate faithful ciphertexts, plus at most a few altered ones.",
 [S+"generic.rs"],[("re-encryption comparison and selection mask",S+"generic.rs")],["decapsulate"])
prop("S05","Saber noise sampling is the exact centred binomial map",
 "The secret sampler of each parameter set maps every random byte string to coefficients that are the difference of the numbers of set bits in consecutive groups of mu/2 bits, hence always within [-mu/2, mu/2]. The random bytes of a vector are consecutive SHAKE128 output of the seed.",
 ["inputs"],"every random byte string, all three parameter sets",
 "Known-answer vectors cover a handful of seeds.",
 [S+"lightsaber.rs",S+"saber.rs",S+"firesaber.rs"],[("cbd",S+"*.rs")],["keygen and encapsulation secrets"])
prop("S06","Saber keys and ciphertexts are the rounded products the scheme specifies",
 "For every parameter set, the public matrix is made of consecutive SHAKE128 bytes of its seed, the public vector is the rounded product of the matrix with the secret, the ciphertext vector is the rounded product of the transposed matrix with the encryption secret, and the message part is the rounded sum of message and inner product. Decryption evaluates the matching formula.",
 ["inputs"],"every seed, coin string, key, message and ciphertext",
 "Known-answer vectors cover a handful of seeds; two deviations that compensate each other pass every round trip.",
 [S+"generic.rs",S+"params.rs",S+"lightsaber.rs",S+"saber.rs",S+"firesaber.rs"],[("IND-CPA key generation, encryption, decryption",S+"generic.rs")],["keygen/encapsulate/decapsulate"])
D="pqcrypto/pqclean/crypto_sign/"
prop("D01","Dilithium modular reductions and the NTT stay congruent and bounded",
 "Montgomery and 32-bit reduction, conditional addition, canonical freezing return a value congruent to their input modulo q and inside the documented interval for every input in their documented domain. The number-theoretic transform and its inverse never overflow 32 bits for in-range polynomials.",
 ["inputs"],"every 32/64-bit input in the documented domain, all parameter sets",
 "Known-answer tests exercise typical values only.",
 [D+"dilithium2/clean/reduce.c",D+"dilithium2/clean/ntt.c",D+"dilithium3/clean/reduce.c",D+"dilithium5/clean/reduce.c"],[("reduction kernels",D+"*/clean/reduce.c")],["signing and verification"])
prop("D02","Dilithium rounding and hints reconstruct the high bits",
 "Splitting a coefficient into high and low parts is exact and stays within the specified ranges, and a hint computed for a bounded perturbation lets the verifier recover exactly the signer's high bits. This holds for every coefficient value and all three parameter sets.",
 ["inputs"],"every coefficient modulo q and every perturbation within the parameter bound",
 "Known-answer tests exercise typical values; the special cases at the top of the range are rare.",
 [D+"dilithium2/clean/rounding.c",D+"dilithium3/clean/rounding.c",D+"dilithium5/clean/rounding.c"],[("power2round, decompose, make_hint, use_hint",D+"*/clean/rounding.c")],["signing and verification"])
prop("D03","Dilithium key and signature encodings are lossless",
 "Packing then unpacking a polynomial, key or signature whose coefficients are in their legal range returns the same coefficients, for every packed width of every parameter set.",
 ["inputs"],"every legal coefficient value at every position, all parameter sets",
 "Known-answer tests cover a few keys.",
 [D+"dilithium2/clean/poly.c",D+"dilithium2/clean/packing.c",D+"dilithium3/clean/poly.c",D+"dilithium5/clean/poly.c"],[("polyeta/polyt1/polyt0/polyz/polyw1 pack and unpack, pack_sig/unpack_sig",D+"*/clean")],["public key, secret key and signature bytes"])
prop("D04","Dilithium signature decoding accepts only the canonical encoding",
 "Decoding a signature reads only inside the signature for every byte content, and any two byte strings that decode successfully to the same challenge, response and hint are identical: hint positions must be strictly increasing, counters monotone and bounded, and unused positions zero.",
 ["inputs"],"every content of the signature bytes, all parameter sets",
 "Random tampering almost never produces alternative encodings; only a few are tried.",
 [D+"dilithium2/clean/packing.c",D+"dilithium3/clean/packing.c",D+"dilithium5/clean/packing.c"],[("hint decoding checks in unpack_sig",D+"*/clean/packing.c")],["crypto_sign_verify"])
prop("D05","Dilithium verification rejects malformed and out-of-bound signatures",
 "Verification rejects every signature of a wrong length, with a response coefficient at or above the bound, with a malformed hint, or whose recomputed challenge differs in any byte; opening a signed message that does not verify returns failure, zeroes the output and reports no message. It accepts when all of these checks pass.",
 ["inputs"],"every signature, message and public key content; every challenge mismatch",
 "Tests verify honest signatures and at most a few random corruptions.",
 [D+"dilithium2/clean/sign.c",D+"dilithium3/clean/sign.c",D+"dilithium5/clean/sign.c"],[("length, norm, hint and challenge checks",D+"*/clean/sign.c")],["crypto_sign_verify","crypto_sign_open"])
prop("D06","Dilithium samplers output exactly the specified ranges",
 "Every uniform, secret, mask and challenge polynomial the samplers produce from any byte stream has all coefficients in its specified range; the challenge has exactly the specified number of nonzero coefficients, each plus or minus one; rejection takes exactly the values the specification accepts. The norm check reports exactly the polynomials with a coefficient at or above the bound.",
 ["inputs"],"every byte stream content within the stated block bound, every in-range polynomial",
 "Known-answer tests use a handful of seeds; boundary values occur rarely.",
 [D+"dilithium2/clean/poly.c",D+"dilithium3/clean/poly.c",D+"dilithium5/clean/poly.c"],[("rej_uniform, rej_eta, poly_challenge, poly_chknorm",D+"*/clean/poly.c")],["key generation, signing, verification"])
prop("D07","The Dilithium Rust API round-trips keys and never accepts a bad signature",
 "For every parameter set, byte strings of a wrong length are refused when building keys or signatures and correct ones round-trip unchanged; signing passes exactly the caller's message and key to the scheme; verification and opening succeed exactly when the scheme accepts. Deterministic key generation is a function of the given coins only.",
 ["inputs","configurations"],"every byte content and length up to the stated bound; scheme outcome arbitrary; with and without AVX2",
 "The wrapper tests run honest random round trips only.",
 ["pqcrypto/pqcrypto-dilithium/src/dilithium2.rs","pqcrypto/pqcrypto-dilithium/src/dilithium3.rs","pqcrypto/pqcrypto-dilithium/src/dilithium5.rs","pqcrypto/pqcrypto-dilithium/src/ffi.rs"],[("length checks, FFI calls and return code mapping","pqcrypto/pqcrypto-dilithium/src/*.rs")],["detached_sign","verify_detached_signature","sign","open","keypair_det"])
prop("D08","Incremental SHAKE absorbs and squeezes independently of chunking",
 "Absorbing an input in any division into pieces, and squeezing output in any division, gives exactly the bytes of the one-shot function on the same data.",
 ["inputs","histories"],"every input content, lengths and split points within the stated bound",
 "Known-answer tests use the few chunkings that signing happens to perform.",
 ["pqcrypto/pqclean/common/fips202.c","pqcrypto/pqcrypto-internals/cfiles/fips202.c"],[("incremental sponge position counter","fips202.c")],["shake128/256 incremental API"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))

"""Per-property table: scenarios, bounds and assumptions (used by check.py and tools/gen_manifest.py)"""
import re

A_PRIM = ('idealised primitives (free functions of their inputs, equal outputs iff equal inputs): the compression functions of BLAKE2b, SHA-256 and SHA-512, '
          'the ChaCha20 block function, the Keccak permutations and Kravatte rolls; the padding, HMAC, HKDF, stream, XOR and deck-cipher code around them is executed')
A_GRP = ('curve25519/ristretto255 arithmetic is modelled exactly as polynomials over Z_ell in independent secret exponents (generic group); point encodings are injective, '
         'an encoding that is not a known one may be valid (an unrelated point) or invalid; cofactor components are not modelled')
A_KEM = 'the Saber IND-CPA scheme inside CAKE and SIGMA-R is idealised as a correct, malleable public-key encryption scheme (its decoding failures are ignored); its own arithmetic is the subject of S01-S06'
A_RNG = 'random bytes drawn from different generators or at different times are independent values, unequal to every other value of the run (a collision of 16 or more independent random bytes is ignored)'
A_TOOL = 'trusted: rustc and LLVM up to the optimised IR that is interpreted, the interpreter in sym/engine, z3'
ASSUME_COMMON = [A_PRIM, A_RNG, A_TOOL]

REACH = {}
PROPS = {}


def groups_of(scenario):
    """which groups of models (engine/models.py) a scenario runs with"""
    if re.match(r's0[1235]|s06', scenario):
        return frozenset(['', 'polymul'] if re.match(r's02_prod|s03_dec|s06', scenario) else [''])
    if is_dil([scenario]):
        return frozenset(['', 'c'])
    return frozenset(['', 'kem'])


def is_dil(scenarios):
    """scenarios of the crate sym/dil (Dilithium's C code)"""
    return any(re.match(r'd0[1-68]', s) for s in scenarios)


def prop(id, scenarios, explain, bounds, outside='', thorough=(), assumptions=(), level='model_checking', **kw):
    PROPS[id] = dict(scenarios=list(scenarios), thorough=list(thorough), explain=explain, bounds=bounds, outside=outside,
                     assumptions=list(assumptions), level=level, **kw)


GENERIC = ('The listed scenarios (sym/harness) are compiled with the current /repo sources to LLVM IR and executed symbolically: symbolic bytes for the listed inputs, '
           'every feasible path explored, each assertion decided for all values on the path by z3 (QF_BV) after normalisation; counterexamples are replayed natively. ')

prop('P01', ['p01_spake2', 'p01_cpace', 'p01_cake'],
     GENERIC + 'Honest two-party runs of each PAKE: completion step, message count, absence of errors/panics, equality of keys.',
     'one session per run; password lengths 0, 1, 5, 33, 65, 130 with symbolic content; symbolic 32-byte subsession id; symbolic randomness of both parties',
     'other password lengths; more than one session', assumptions=[A_GRP, A_KEM])
prop('P02', ['p02_spake2', 'p02_cpace', 'p02_cake'],
     GENERIC + 'Faithful delivery between parties with different passwords (equal and different lengths) or different subsession ids; keys must differ, KC-SPAKE2 must report an error.',
     'password length pairs (5,5) (0,1) (1,0) (4,5) (5,4) (33,32) (65,65) with symbolic different contents; symbolic different ids with password lengths 0, 5, 33',
     'other lengths', assumptions=[A_GRP, A_KEM])
prop('P03', ['p03_spake2', 'p03_reflect'],
     GENERIC + 'Each of the three KC-SPAKE2 messages is xored with an arbitrary symbolic mask of its length; and own confirmation values / shares are reflected.',
     'one session, all 130 message bytes altered arbitrarily and independently; three reflection patterns with symbolic MAC content',
     'altered shares are treated as unrelated group elements: an alteration that is an algebraic function of the honest share (unknown to a generic attacker by xor) is outside', assumptions=[A_GRP])

IB = ['hmqv', 'sigdh', 'fg', 'sigma', 'sigmad']
IBN = 'HMQV-C, signed DH, Fiore-Gennaro-C, SIGMA-R with Ed25519 and with Dilithium2'
prop('P04', ['p04_' + i for i in IB],
     GENERIC + 'Honest two-party runs of each IBKE under one key centre: completion step of each role, message count and lengths, absence of errors/panics, equality of keys, reported identities.',
     'one session per run, symbolic 32-byte identities, subsession id and randomness (' + IBN + ')', 'several sessions of one user at once', assumptions=[A_GRP, A_KEM])
prop('P05', ['p05_hmqv', 'p05_sigdh', 'p05_fg', 'p05_sigma', 'p05_sigmad_m0', 'p05_sigmad_m1', 'p05_sigmad_m2', 'p05_sigmad_m3'],
     GENERIC + 'Every message of the session is xored with an arbitrary symbolic mask of its length (all messages at once; for SIGMA-R with Dilithium2 one message per scenario).',
     'one session; every byte of every message altered arbitrarily, masks of different messages independent (SIGMA-R/Dilithium2: one altered message at a time)',
     'altered group elements are unrelated elements; alterations that depend on secrets; messages of another length', assumptions=[A_GRP, A_KEM],
     thorough=['p05_sigmad'])
CB = ['hmqv', 'sigdh', 'sigma', 'sigmad']
prop('P06', ['p06_%s_%s' % (k, i) for i in CB for k in ('forged', 'stolen')] + ['p06_recombine_hmqv', 'p06_recombine_sigdh'],
     GENERIC + 'An attacker session with its own keys presents certificates that were never issued (other centre, other identity, other key, recombined, arbitrary symbolic signature bytes), or a genuine certificate of somebody else; '
     'certificates sent in clear are replaced field by field by parts of three genuine certificates.',
     'one victim in either role, one attacker session, six kinds of forged certificate, all 27 recombinations of three genuine certificates per message',
     'adversaries that compute on group elements other than by running the protocol', assumptions=[A_GRP, A_KEM])
SG = ['sigdh', 'sigma', 'sigmad']
prop('P07', ['p07_%s_%s' % (k, i) for i in SG for k in ('cross', 'replay', 'mix')],
     GENERIC + 'A complete session of the same two users is recorded (other or same subsession id, either role); the victim then runs alone in either role and gets any of the recorded messages or its own messages reflected; '
     'and two concurrent sessions whose first two messages are exchanged field by field.',
     'one recorded session, every choice of recorded or own message of the matching length at each step; two concurrent sessions',
     'more than two sessions', assumptions=[A_GRP, A_KEM])
prop('P08', ['p08_' + i for i in IB],
     GENERIC + 'Faithful delivery between sessions with different subsession ids, different main keys, or a main key other than the one that certified the peer.',
     'one session, different symbolic subsession ids; a second, independent key centre in three arrangements', assumptions=[A_GRP, A_KEM])
prop('P09', ['p09_misbind_hmqv', 'p09_names_hmqv', 'p09_names_fg', 'p09_names_sigma', 'p09_names_sigmad'],
     GENERIC + 'The key centre also certifies the user keys of either user under further identities; the network substitutes these certificates (HMQV-C, where they are sent in clear), or the user itself uses either of its certificates.',
     'two further certificates, all substitution patterns, symbolic identities', 'substitution inside the encrypted messages of SIGMA-R is covered by P05', assumptions=[A_GRP, A_KEM])
for i in IB:
    REACH['p04_' + i] = ['honest run completed']
    REACH['p08_' + i] = ['mismatched run ended']
for i in ['hmqv', 'sigdh', 'fg', 'sigma', 'sigmad_m0', 'sigmad_m1', 'sigmad_m2', 'sigmad_m3']:
    REACH['p05_' + i] = ['altered run ended'] + ([] if '_m' in i else ['both completed'])
for i in CB:
    REACH['p06_forged_' + i] = ['forged certificate presented', 'attack ended']
    REACH['p06_stolen_' + i] = ['attack ended']
for i in SG:
    REACH['p07_cross_' + i] = REACH['p07_replay_' + i] = ['first session recorded', 'replay ended']
    REACH['p07_mix_' + i] = ['mixed run ended', 'unmixed']
for i in ['p06_recombine_hmqv', 'p06_recombine_sigdh']:
    REACH[i] = ['run ended', 'both completed']
REACH['p09_misbind_hmqv'] = ['substituted run ended']
for i in ['hmqv', 'fg', 'sigma', 'sigmad']:
    REACH['p09_names_' + i] = ['completed']

prop('P11', ['p11_roundtrip', 'p11_tamper', 'p11_short'],
     GENERIC + 'Round trip; and decryption of altered ciphertexts: xored with an arbitrary mask, another key (authentication half, or both), cut or extended at either end by arbitrary bytes, spliced from two genuine ciphertexts; and every input shorter than the overhead.',
     'message lengths 0 1 12 31 32 33 63 64 65 100 128 129 (round trip) and 0 1 12 32 64 65 100 (tampering), inputs of 0..43 bytes; symbolic key, message, nonce, masks',
     'other lengths; a decryption key whose authentication half is equal')
prop('P12', ['p12_inverse', 'p12_spec', 'p12_keyed', 'p12_diffusion'],
     GENERIC + 'Both inversion directions; equality with a reimplementation of the four-round construction (Farfalle-WBC) on the deck function; different keys; a change of any one byte changes both halves of the output, in both directions.',
     'block lengths 32 33 40 64 65 100 672 736 (inversion, construction) and 32 33 64 100 (keys, one changed byte at every position)',
     'other lengths; changes of several bytes at once (diffusion)')
for i in ['p11_roundtrip']:
    REACH[i] = ['round trip']
REACH['p11_tamper'] = ['altered', 'rejected']

_M = {'hmqv': 3, 'sigdh': 2, 'fg': 3, 'sigma': 4, 'sigmad': 4}
prop('P13', ['p13_fail_%s_m%d' % (i, k) for i in IB for k in range(_M[i])],
     GENERIC + 'One message of an encrypted session is xored with an arbitrary mask, cut, extended or replaced by arbitrary bytes; its receiver then runs alone on arbitrary, empty or reflected messages to its end. '
     'Asserted: no error, no panic, the lengths and the completion step of an honest session, and that asking for the result (right after the failure, or at the end) fails.',
     'one session of each IBKE, failure at each of its messages, arbitrary later messages', 'messages that decrypt but make the inner protocol fail (only a holder of the initial key can send them)', assumptions=[A_GRP, A_KEM])
prop('P14', ['p14_honest_' + i for i in IB] + ['p14_mismatch_' + i for i in IB] + ['p14_replay_%s_m%d' % (i, k) for i in IB for k in range(_M[i])],
     GENERIC + 'Honest runs (messages are those of the inner protocol plus 44 bytes, pairwise distinct nonces, result of the inner protocol); different initial keys or subsession ids; '
     'any other message of this session, or a later message of another session under the same initial key, delivered in place of any message.',
     'one session of each IBKE; each position; every other message of the session and of one other session', 'replay of the same position from another session under the same initial key (accepted by design; initial keys are PAKE session keys)', assumptions=[A_GRP, A_KEM])
LA = ['hmqv', 'sigdh', 'fg', 'sigma', 'sigmad']
_L = {'hmqv': 6, 'sigdh': 5, 'fg': 6, 'sigma': 6, 'sigmad': 6}
COMBO = 'HMQV-C, signed DH and Fiore-Gennaro-C over KC-SPAKE2, SIGMA-R Ed25519 and Dilithium2 over CAKE, signed DH over CPace'
prop('P15', ['p15_' + i for i in LA] + ['p15_sigdh_cpace'],
     GENERIC + 'Honest LATKE runs, pre-specified and post-specified peers: message count and lengths, completion, keys, identities.',
     'the combinations ' + COMBO + '; password lengths 0, 5, 33, 130 with symbolic content; symbolic identities and subsession id', 'other password lengths and other combinations', assumptions=[A_GRP, A_KEM])
prop('P16', ['p16_mismatch_' + i for i in LA + ['sigdh_cpace']] + ['p16_mitm_' + i for i in LA] +
     ['p16_tamper_%s_m%d' % (i, k) for i in LA for k in range(_L[i])] + ['p16_tamper_sigdh_cpace_m%d' % k for k in range(4)],
     GENERIC + 'LATKE users with different passwords, subsession ids or wrong pre-specified identities; any one message xored with an arbitrary mask, cut or extended by a byte; '
     'and an attacker who knows the password, runs the PAKE with both users and passes the encrypted inner protocol on (both users complete; their keys must differ because their transcripts do).',
     'the combinations ' + COMBO + '; one altered message per run; password lengths 5 against 0, 4, 5, 6', 'several altered messages at once; deviating insiders other than the relay', assumptions=[A_GRP, A_KEM])
prop('P17', ['p17_' + i for i in LA],
     GENERIC + 'Password files of the same password for two identities, with different randomness, and of another password: main keys, certified identity, freshness of the user keys, and that the certificates and user keys work under the main key.',
     'password length pairs (5,5) (0,1) (33,32) (33,33) (129,129) (128,129), symbolic contents', 'other lengths; Fiore-Gennaro user keys have no per-file public key of their own (their freshness is not compared)', assumptions=[A_GRP, A_KEM])
prop('P18', ['p18_honest_' + i for i in ('spake2', 'cpace', 'cake')] + ['p18_mismatch_' + i for i in ('spake2', 'cpace', 'cake')] +
     ['p18_tamper_%s_m%d' % (i, k) for i, n in (('spake2', 5), ('cpace', 4), ('cake', 4)) for k in range(n)],
     GENERIC + 'Honest CHIP runs; different passwords, subsession ids or expected identities; any one message xored with an arbitrary mask.',
     'CHIP over KC-SPAKE2, CPace and CAKE; password lengths 0, 5, 33, 130 (honest), 5 against 0, 4, 5, 6 (mismatch)', 'several altered messages at once; group elements altered in a way that depends on secrets', assumptions=[A_GRP, A_KEM])
for i in LA:
    for k in range(_M[i]):
        REACH['p13_fail_%s_m%d' % (i, k)] = ['altered message delivered', 'the failed session ran to its end']
        REACH['p14_replay_%s_m%d' % (i, k)] = ['message delivered out of place', 'the failed session ran to its end']
    REACH['p14_honest_' + i] = REACH['p15_' + i] = ['honest run completed']
    REACH['p14_mismatch_' + i] = ['mismatched run completed']
    REACH['p16_mitm_' + i] = ['both released a result']
    REACH['p17_' + i] = ['password files used']
for i in ('spake2', 'cpace', 'cake'):
    REACH['p18_honest_' + i] = ['honest run completed']
    REACH['p18_mismatch_' + i] = ['mismatched run ended']

prop('P19', ['p19_early_' + i for i in ('spake2', 'cpace', 'cake')] + ['p19_failed_spake2'] + ['p19_%s_%s' % (k, i) for i in IB for k in ('early', 'failed', 'sim')],
     GENERIC + 'Sessions stopped after any number of steps; sessions in which any one message is xored with an arbitrary mask, cut or extended by a byte, and whose receiver reported an error (asked at once, after a second altered message, or after simulated steps to the end); '
     'and sessions that go over to simulated steps after any number of real ones. Asking for the result has to fail; completion flags and simulated lengths are compared with the protocol.',
     'one session of each protocol; every step; every altered content of the message', 'messages altered in length by more than one byte; CPace and CAKE never report errors (their failures are panics)', assumptions=[A_GRP, A_KEM])
for i in IB:
    REACH['p19_early_' + i] = ['result asked too early']
    REACH['p19_failed_' + i] = ['error reported', 'error reported twice', 'simulated to the end']
    REACH['p19_sim_' + i] = ['simulated to the end']

prop('P10', ['p10_nonces'] + ['p10_' + i for i in ('spake2', 'cpace', 'cake')] + ['p10_' + i for i in IB] + ['p10_latke_' + i for i in IB + ['sigdh_cpace']] + ['p10_chip_' + i for i in ('spake2', 'cpace', 'cake')],
     GENERIC + 'Every session is run twice with the same credentials, passwords, identities and subsession id; the second time one party (either) has new randomness, both from its generator argument and from the operating system, while the other repeats its own. '
     'Keys must differ, and so must every ephemeral value and nonce that party sends.',
     'two runs of one session; symbolic passwords (5 bytes), identities, subsession id and randomness; LATKE over ' + COMBO, 'more than two runs; for CAKE and SIGMA-R the initiator does not contribute to the key (KEM)', assumptions=[A_GRP, A_KEM])
prop('P20', ['p20_' + i for i in ('spake2', 'cpace', 'cake')] + ['p20_' + i for i in IB] + ['p20_latke_' + i for i in IB + ['sigdh_cpace']] + ['p20_chip_' + i for i in ('spake2', 'cpace', 'cake')],
     GENERIC + 'Honest sessions in which passwords, identities and randomness are independent random values. Every message is searched at every offset for every 16-byte part of the password, of the random bytes drawn for private values and the scalars made of them, '
     'of session keys and of the internal keys and shared secrets recorded by hooks (HMQV sigma, DH results, KDF inputs, MAC, chain and encryption keys, FG/CHIP private user keys); for LATKE also for identities, user and main public keys and certificates.',
     'one honest session per protocol; 16-byte windows, messages searched at all offsets', 'secrets sent in encoded form (xored, hashed, shorter than 16 bytes); private values drawn inside dependencies from the operating system (SPAKE2, CPace and x25519 ephemeral scalars, KEM and Dilithium private keys)', assumptions=[A_GRP, A_KEM])
for i in PROPS['P10']['scenarios']:
    REACH[i] = ['two encryptions' if i == 'p10_nonces' else 'two runs compared']
for i in PROPS['P20']['scenarios']:
    REACH[i] = ['messages scanned']

# ---------------------------------------------------------------- Saber
SETS = ['light', 'saber', 'fire']
A_POLY = 'where stated, the product of two polynomials in the larger computation is one uninterpreted ring product (what it computes is decided by s02_mul and s02_square)'
prop('S01', ['s01_pack%d' % i for i in (3, 4, 6, 10, 13)] + ['s01_msg'] + ['s01_%s_%s' % (k, i) for i in SETS for k in ('vec', 'keys', 'objects', 'len')],
     GENERIC + 'Every packing width with symbolic coefficients and symbolic bytes, in both orders; the message encoding; vectors, public keys, secret keys and ciphertexts of the three sets from bytes to object to bytes and from object to bytes to object, '
     'with every field read back; byte strings whose length is symbolic (0..8191) and wrong.',
     'complete for one object of each kind: all coefficients and bytes symbolic, all lengths below 8192', 'longer byte strings', assumptions=[])
prop('S02', ['s02_linear', 's02_mul', 's02_square'] + ['s02_prod_' + i for i in SETS],
     GENERIC + 'Sum, difference, constants, shifts and reductions per coefficient; the product of two polynomials with all 512 coefficients symbolic against the schoolbook definition (the 256 output polynomials are compared as polynomials over Z/2^16); '
     'the square; inner products, sums, matrix and transposed-matrix products of the three sets.',
     'complete for one operation (all coefficients symbolic 16-bit values)', 'products of two different polynomials that share coefficients by accident are covered by s02_mul, of a polynomial with itself by s02_square', assumptions=[A_POLY])
prop('S03', ['s03_rec_' + i for i in SETS] + ['s06_%s_%s' % (k, i) for i in SETS for k in ('enc', 'dec')],
     GENERIC + 'The reconciliation data computed from message and value x, and the decoding with a value y whose difference from x is within the tolerance, for all 256 coefficients at once; '
     'and encryption and decryption of the real code against the formulas in which these functions meet (so that decrypting is: decode the encoded value with the decryptor\'s own product).',
     'all coefficients, noise values and message bits; tolerance |noise| <= 256 - 2^(8-RECON_SIZE)', 'how often honest noise exceeds the tolerance (a probability)', assumptions=[A_POLY], thorough=['s03_dec_light', 's03_dec_saber'])
prop('S04', ['s04_%s_%s' % (k, i) for i in SETS for k in ('mask', 'decaps', 'any', 'encaps')],
     GENERIC + 'The byte comparison on symbolic strings of ciphertext length; decapsulation of the honest ciphertext xored with an arbitrary mask, with two rejection values; decapsulation of an arbitrary ciphertext under an arbitrary key against the specified function; encapsulation against its specification.',
     'one key and one encapsulation, every ciphertext content', 'the arithmetic of the inner scheme is idealised here (it is the subject of S01-S03, S05, S06)', assumptions=[A_KEM])
prop('S05', ['s05_' + i for i in SETS] + ['s05_expand_' + i for i in SETS],
     GENERIC + 'The sampler on a symbolic byte string against the bit-counting definition, with the number of bytes used; the secret vectors made of consecutive SHAKE128 bytes of a symbolic seed.',
     'complete for one polynomial (all input bytes symbolic) and one vector', 'the distribution of the SHAKE128 output', assumptions=[])
prop('S06', ['s05_expand_' + i for i in SETS] + ['s06_%s_%s' % (k, i) for i in SETS for k in ('key', 'enc', 'dec')],
     GENERIC + 'Matrix and secrets from the seeds, key generation, encryption and decryption of the real code against the formulas of the scheme, with symbolic seeds, coins, keys, messages and ciphertexts.',
     'one key, one message, one ciphertext; all contents', 'the products themselves are uninterpreted here (S02)', assumptions=[A_POLY])
for k in (3, 4, 6, 10, 13):
    REACH['s01_pack%d' % k] = ['encoded and decoded']
REACH['s01_msg'] = ['message encoded and decoded']
REACH['s02_linear'] = ['linear operations']
REACH['s02_mul'] = REACH['s02_square'] = ['product']
for i in SETS:
    for k, v in {'s01_vec': 'vectors', 's01_keys': 'keys', 's01_objects': 'objects', 's01_len': 'wrong length', 's02_prod': 'products', 's03_rec': 'reconciled',
                 's03_dec': 'decrypted', 's04_any': 'altered', 's04_encaps': 'encapsulated', 's05_expand': 'expanded', 's06_key': 'key pair',
                 's06_enc': 'encrypted', 's06_dec': 'decrypted', 's05': 'sampled'}.items():
        REACH['%s_%s' % (k, i)] = [v]
    REACH['s04_mask_' + i] = ['equal', 'different']
    REACH['s04_decaps_' + i] = ['faithful', 'altered']

# ---------------------------------------------------------------- Dilithium
GEN_C = ('The C sources are compiled with clang to LLVM IR (-O0, then one simplifying pass), linked with the scenario crate sym/dil and executed symbolically; '
         'z3 (QF_BV) decides every assertion that does not normalise away; counterexamples are replayed against the natively compiled C code. ')
A_C = 'the portable ("clean") implementation is the one encoded; the AVX2 and AArch64 variants (intrinsics and assembly) are outside'
DS = [2, 3, 5]


def dprop(id, kinds, *a, **k):
    prop(id, ['%s_%d' % (s, i) for s in kinds for i in DS], *a, **k)
    PROPS[id]['assumptions'].append(A_C)


def dreach(kinds, *marks):
    for s in kinds:
        for i in DS:
            REACH['%s_%d' % (s, i)] = list(marks)


dprop('D01', ['d01_mont', 'd01_reduce'], GEN_C + 'The reduction functions on every value of their documented domains.',
      'complete: all 64-bit inputs in [-2^31 q, 2^31 q), all 32-bit inputs up to 2^31-2^22-1', 'none')
dprop('D02', ['d02_p2r', 'd02_dec', 'd02_hint', 'd02_parts', 'd02_poly', 'd02_hints', 'd02_vhints'], GEN_C + 'Splitting and hints on every coefficient modulo q; '
      'the hint restores the high part for every perturbation within the signer\'s bounds; the polynomial and vector forms apply the coefficient functions at all indices and count hints.',
      'complete per coefficient; polynomials and vectors with all coefficients symbolic (split) or arbitrary coefficients at a few symbolic places (hints)', 'none')
dprop('D03', ['d03_poly', 'd03_keys', 'd03_resp', 'd03_hints'], GEN_C + 'Each packed width: coefficients to bytes and back, bytes to coefficients and back, and the bit layout; whole keys and signatures, with every field read back.',
      'all coefficients and bytes symbolic; hints: five families of counts (none, all in the last, all in the first, mixed, evenly spread), one place symbolic', 'other hint counts (D04 covers decoding in general)')
dprop('D04', ['d04_verdict', 'd04_count'], GEN_C + 'Decoding of a hint with every content of the position bytes against the specification of well-formed encodings and, if accepted, of the decoded hints; every wrong value of one counter.',
      'all position bytes symbolic for eleven shapes of non-decreasing counters per set; one wrong counter at each place with every value', 'other combinations of counters')
dreach(['d01_mont'], 'montgomery')
dreach(['d01_reduce'], 'reduce32')
dreach(['d02_p2r'], 'power2round')
dreach(['d02_dec'], 'decompose')
dreach(['d02_hint', 'd02_parts'], 'hint')
dreach(['d02_poly'], 'polynomials')
dreach(['d02_hints', 'd02_vhints'], 'hints')
dreach(['d03_poly'], 'packed and unpacked')
dreach(['d03_keys'], 'keys')
dreach(['d03_resp'], 'response')
dreach(['d03_hints'], 'hints')
dreach(['d04_verdict'], 'accepted', 'refused')
dreach(['d04_count'], 'bad counters')

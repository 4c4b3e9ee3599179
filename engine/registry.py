"""Which obligations decide which property."""
from fam_sym import *
from fam_aead import *
from fam_int import *
import fam_big as L
import fam_sig as E


def sha(alg):
    B = BLOCK[alg]
    return [ob_sha_wrong_len(alg)] + [ob_sha_lengths(alg, a, a + 100) for a in range(0, 400, 100)]


def splits(alg):
    B = BLOCK[alg]
    return [ob_sha_splits(alg, list(range(a, a + 32))) for a in range(0, B, 32)]


def hashing(algs=HASHES):
    """SHA-2 for histories and messages of every length."""
    obs = []
    for w in (32, 64):
        if any(BLOCK[a] == 2 * w for a in algs):
            obs += [ob_sha_process(w)] + [L.ob_sha_update(w, list(range(a, a + 8))) for a in range(0, 2 * w, 8)]
    for a in algs:
        obs += [L.ob_sha_digest(a, list(range(0, BLOCK[a]))), L.ob_sha_wrapper(a)]
    return obs


def field():
    return E.obs_fe_contracts() + E.obs_fe_tests()


def points():
    return field() + E.obs_formulas() + E.obs_tobytes() + E.obs_base() + [ob_sc_reduce()]


def unique(obs):
    out = {}
    for o in obs:
        out.setdefault(o.name, o)
    return list(out.values())


def build():
    mac = lambda n: [L.ob_mac_absorb(n), L.ob_mac_driver(n)]
    refuse = {o.name.split(":: ")[0].split(": ")[0]: o for o in L.refusals()}
    ref = lambda *names: [refuse[n] for n in names]
    drv = lambda op: [L.ob_aead_driver(a, op) for a in AES]
    P = {}
    P["C01"] = hashing() + [o for a in HASHES for o in sha(a)]
    P["C02"] = hashing() + [o for a in HASHES for o in splits(a)]
    P["C03"] = hashing() + [L.ob_hmac_object(a) for a in HASHES] + [L.ob_hmac_calls(a) for a in HASHES] + [ob_hmac(a) for a in HASHES]
    P["C04"] = hashing() + [L.ob_hmac_object(a) for a in HASHES] + [L.ob_hmac_verify_all(a) for a in HASHES] + [ob_hmac_verify(a) for a in HASHES]
    P["C05"] = hashing() + [L.ob_hmac_object(a) for a in HASHES] + [f(a) for f in (L.ob_hkdf_extract, L.ob_hkdf_expand) for a in HASHES] + [ob_hkdf(a) for a in HASHES]
    P["C06"] = [L.ob_stream_next(), L.ob_stream_process(), ob_chacha_block()] + [ob_stream(list(range(a, a + 16))) for a in range(0, 64, 16)]
    P["C07"] = [L.ob_stream_next(), L.ob_stream_process(), ob_chacha_block()] + [ob_stream(list(range(a, a + 16))) for a in range(0, 64, 16)]
    P["C08"] = mac("poly1305") + [L.ob_ccp_process(), L.ob_aead_driver("ccp", "encrypt"), ob_chacha_block(), ob_poly_driver(), ob_ccp_encrypt()] + obs_poly()
    P["C09"] = mac("poly1305") + [L.ob_ccp_process(), L.ob_aead_driver("ccp", "decrypt"), ob_verify16(), ob_ccp_decrypt(), ob_poly_driver(), ob_chacha_block()] + obs_poly()
    P["C10"] = [ob_sbox()] + [ob_aes(a) for a in AES] + [refuse[f"aes::{a.capitalize()}::new"] for a in AES]
    P["C11"] = mac("ghash") + [L.ob_gcm_process(a) for a in AES] + drv("encrypt") + [ob_sbox()] + [ob_aes(a) for a in AES] + [ob_gf_process(), ob_ghash()] + [ob_gcm_encrypt(a) for a in AES]
    P["C12"] = mac("ghash") + [ob_sbox()] + [ob_aes(a) for a in AES] + [L.ob_gcm_process(a) for a in AES] + drv("decrypt") + [ob_verify16(), ob_gf_process(), ob_ghash()] + [ob_gcm_decrypt(a) for a in AES]
    P["C13"] = field() + [E.ob_x25519("dh"), E.ob_x25519("gen_pk")]
    P["C14"] = hashing(["sha512"]) + points() + [ob_sc_muladd(), E.ob_gen_pk(), E.ob_sign()]
    P["C15"] = hashing(["sha512"]) + points() + [ob_sc_canonical(), E.ob_decode(), E.ob_dsm(), E.ob_slide(), E.ob_verify(), E.ob_verify_len()]
    P["C16"] = hashing(["sha512"]) + points() + [ob_sc_muladd(), ob_sc_canonical(), E.ob_decode(), E.ob_dsm(), E.ob_slide(), E.ob_gen_pk(), E.ob_sign(), E.ob_verify(), E.ob_complete()]
    P["C17"] = [ob_verify16()]
    P["C18"] = unique(o for p in sorted(P) for o in P[p] if not o.bounded)
    P["C19"] = list(refuse.values()) + [L.ob_stream_process()] + [L.ob_aead_driver(a, op) for a in list(AES) + ["ccp"] for op in ("encrypt", "decrypt")] + \
        [f(a) for f in (L.ob_hkdf_extract, L.ob_hkdf_expand) for a in HASHES] + \
        [ob_sha_wrong_len(a) for a in HASHES] + [ob_hkdf(a) for a in HASHES] + [ob_ccp_refuse()] + [ob_gcm_refuse(a) for a in AES]
    return P


LEVEL = {}
TRUSTED = [
    "rustc's translation of /repo to (unoptimised) LLVM IR, which is what is verified, and from LLVM IR to machine code",
    "the IR executor, the domains and the obligation scripts in /verif/engine",
    "the specification functions in /verif/engine/specs.py, ref.py (from the standards)",
    "the byteorder crate and Rust core are not assumed: their code is executed with the function under contract",
]
NOTE = {"*": "Every obligation is a contract on functions of /repo checked on the LLVM IR compiled from the current source; see DESIGN.md."}
NA = {}

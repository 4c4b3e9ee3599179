//! Instantiates the public API of crypto-pure at concrete types so that the code of its generic
//! functions is emitted. Contains no logic of its own: one call per function.
#![allow(clippy::all)]
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hmac::{Hmac, Tag};
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{HashFunction, Sha224, Sha256, Sha384, Sha512};

macro_rules! hash {
    ($t:ident, $m:ident) => {
        #[allow(non_snake_case)]
        pub mod $m {
            use super::*;
            #[export_name = concat!("h_", stringify!($m), "_default")]
            pub fn default(out: &mut $t) { *out = <$t as Default>::default(); }
            #[export_name = concat!("h_", stringify!($m), "_update")]
            pub fn update(h: &mut $t, input: &[u8]) { h.update(input) }
            #[export_name = concat!("h_", stringify!($m), "_write_digest")]
            pub fn write_digest(h: $t, out: &mut [u8]) { h.write_digest(out) }
            #[export_name = concat!("h_", stringify!($m), "_hmac_new")]
            pub fn hmac_new(out: &mut Hmac<$t>, key: &[u8]) { *out = Hmac::<$t>::new(key); }
            #[export_name = concat!("h_", stringify!($m), "_hmac_update")]
            pub fn hmac_update(h: &mut Hmac<$t>, input: &[u8]) { h.update(input) }
            #[export_name = concat!("h_", stringify!($m), "_hmac_tag")]
            pub fn hmac_tag(h: Hmac<$t>) -> Tag { h.tag() }
            #[export_name = concat!("h_", stringify!($m), "_hmac_tag_copy")]
            pub fn hmac_tag_copy(h: Hmac<$t>, out: &mut [u8]) { let t = h.tag(); out.copy_from_slice(&t) }
            #[export_name = concat!("h_", stringify!($m), "_hmac_verify")]
            pub fn hmac_verify(key: &[u8], message: &[u8], tag: &[u8]) -> bool { crypto_pure::hmac::verify::<$t>(key, message, tag) }
            #[export_name = concat!("h_", stringify!($m), "_hkdf_extract")]
            pub fn hkdf_extract(salt: &[u8], ikm: &[u8], prk: &mut [u8]) { crypto_pure::hkdf::extract::<$t>(salt, ikm, prk) }
            #[export_name = concat!("h_", stringify!($m), "_hkdf_expand")]
            pub fn hkdf_expand(prk: &[u8], info: &[u8], okm: &mut [u8]) { crypto_pure::hkdf::expand::<$t>(prk, info, okm) }
        }
    };
}
hash!(Sha512, sha512);
hash!(Sha384, sha384);
hash!(Sha256, sha256);
hash!(Sha224, sha224);

macro_rules! aes {
    ($t:ident, $m:ident) => {
        pub mod $m {
            use super::*;
            #[export_name = concat!("h_", stringify!($m), "_new")]
            pub fn new(out: &mut $t, key: &[u8]) { *out = <$t as BlockCipher>::new(key); }
            #[export_name = concat!("h_", stringify!($m), "_permute")]
            pub fn permute(c: &$t, input: &[u8; 16], out: &mut [u8; 16]) { *out = c.permute(input) }
            #[export_name = concat!("h_", stringify!($m), "_gcm_new")]
            pub fn gcm_new(out: &mut Gcm<$t>, key: &[u8]) { *out = Gcm::<$t>::new(key); }
            #[export_name = concat!("h_", stringify!($m), "_gcm_encrypt")]
            pub fn gcm_encrypt(c: &Gcm<$t>, input: &[u8], nonce: &[u8], data: &[u8], output: &mut [u8], tag: &mut [u8; 16]) {
                *tag = c.encrypt(input, nonce, data, output)
            }
            #[export_name = concat!("h_", stringify!($m), "_gcm_decrypt")]
            pub fn gcm_decrypt(c: &Gcm<$t>, input: &[u8], nonce: &[u8], data: &[u8], tag: &[u8], output: &mut [u8]) -> bool {
                c.decrypt(input, nonce, data, tag, output)
            }
        }
    };
}
aes!(Aes128, aes128);
aes!(Aes192, aes192);
aes!(Aes256, aes256);

#[no_mangle] pub fn h_ccp_new(out: &mut ChaCha20Poly1305, key: &[u8]) { *out = ChaCha20Poly1305::new(key); }
#[no_mangle] pub fn h_ccp_encrypt(c: &ChaCha20Poly1305, input: &[u8], nonce: &[u8], data: &[u8], output: &mut [u8], tag: &mut [u8; 16]) {
    *tag = c.encrypt(input, nonce, data, output)
}
#[no_mangle] pub fn h_ccp_decrypt(c: &ChaCha20Poly1305, input: &[u8], nonce: &[u8], data: &[u8], tag: &[u8], output: &mut [u8]) -> bool {
    c.decrypt(input, nonce, data, tag, output)
}
#[no_mangle] pub fn h_stream_new(out: &mut Stream, key: &[u8], nonce: &[u8]) { *out = Stream::new(key, nonce); }
#[no_mangle] pub fn h_stream_next(s: &mut Stream) -> Option<u8> { s.next() }
#[no_mangle] pub fn h_stream_encrypt(s: &mut Stream, input: &[u8], output: &mut [u8]) { s.encrypt(input, output) }
#[no_mangle] pub fn h_stream_decrypt(s: &mut Stream, input: &[u8], output: &mut [u8]) { s.decrypt(input, output) }

//! Line-protocol driver over the public API of crypto-pure, used to replay inputs against the real
//! code. One command per line, fields separated by blanks, byte strings in hex ("-" is empty).
//! Answers "OK field.." or "PANIC field.." (fields: the caller's output buffers after the call).
use crypto_pure::aes::{Aes128, Aes192, Aes256, BlockCipher};
use crypto_pure::chacha20::Stream;
use crypto_pure::gcm::{AeadCipher, Gcm};
use crypto_pure::hmac::Hmac;
use crypto_pure::poly1305::ChaCha20Poly1305;
use crypto_pure::sha2::{HashFunction, Sha224, Sha256, Sha384, Sha512};
use crypto_pure::{curve25519, ed25519, hkdf, hmac, sha2, util};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return Vec::new(); }
    fn d(c: u8) -> u8 { match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, _ => panic!("hex") } }
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}
fn hex(b: &[u8]) -> String {
    if b.is_empty() { return "-".into(); }
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { s.push(H[(x >> 4) as usize] as char); s.push(H[(x & 15) as usize] as char); }
    s
}
fn pattern(len: usize, seed: u64) -> Vec<u8> {
    // A cycle of 251 bytes.
    let cyc: Vec<u8> = (0..251u64).map(|i| ((i * i * 7 + i * 13 + seed * 31 + 5) >> 1) as u8).collect();
    let mut v = Vec::with_capacity(len);
    while v.len() + 251 <= len { v.extend_from_slice(&cyc); }
    let r = len - v.len();
    v.extend_from_slice(&cyc[..r]);
    v
}
fn splits(s: &str) -> Vec<usize> { if s == "-" { vec![] } else { s.split(',').map(|x| x.parse().unwrap()).collect() } }

/// Feeds `data` in pieces of the given lengths, then the rest.
fn feed(data: &[u8], sp: &[usize], mut f: impl FnMut(&[u8])) {
    let mut o = 0;
    for &n in sp { f(&data[o..o + n]); o += n; }
    if o < data.len() || sp.is_empty() { f(&data[o..]); }
}
fn sha_inc<H: HashFunction>(data: &[u8], sp: &[usize], out: &mut [u8]) {
    let mut h = H::default();
    feed(data, sp, |c| h.update(c));
    h.write_digest(out);
}
fn digest_size(a: &str) -> usize { match a { "sha512" => 64, "sha384" => 48, "sha256" => 32, "sha224" => 28, _ => panic!() } }

macro_rules! with_hash { ($a:expr, $f:ident, $($x:expr),*) => { match $a {
    "sha512" => $f::<Sha512>($($x),*), "sha384" => $f::<Sha384>($($x),*),
    "sha256" => $f::<Sha256>($($x),*), "sha224" => $f::<Sha224>($($x),*), _ => panic!("alg") } } }

fn hmac_tag<H: HashFunction>(key: &[u8], data: &[u8], sp: &[usize]) -> Vec<u8> {
    let mut h = Hmac::<H>::new(key);
    feed(data, sp, |c| h.update(c));
    let t = h.tag();
    let r: &[u8] = t.as_ref();
    assert_eq!(r, &t[..]);
    r.to_vec()
}
fn hmac_verify<H: HashFunction>(key: &[u8], data: &[u8], tag: &[u8]) -> bool { hmac::verify::<H>(key, data, tag) }
fn extract<H: HashFunction>(s: &[u8], i: &[u8], p: &mut [u8]) { hkdf::extract::<H>(s, i, p) }
fn expand<H: HashFunction>(p: &[u8], i: &[u8], o: &mut [u8]) { hkdf::expand::<H>(p, i, o) }
fn aead_enc<A: AeadCipher>(k: &[u8], i: &[u8], n: &[u8], d: &[u8], o: &mut [u8]) -> [u8; 16] { A::new(k).encrypt(i, n, d, o) }
fn aead_dec<A: AeadCipher>(k: &[u8], i: &[u8], n: &[u8], d: &[u8], t: &[u8], o: &mut [u8]) -> bool { A::new(k).decrypt(i, n, d, t, o) }
fn aes<C: BlockCipher>(k: &[u8], b: &[u8; 16]) -> [u8; 16] { C::new(k).permute(b) }
macro_rules! with_aead { ($a:expr, $f:ident, $($x:expr),*) => { match $a {
    "ccp" => $f::<ChaCha20Poly1305>($($x),*), "gcm128" => $f::<Gcm<Aes128>>($($x),*),
    "gcm192" => $f::<Gcm<Aes192>>($($x),*), "gcm256" => $f::<Gcm<Aes256>>($($x),*), _ => panic!("aead") } } }

/// Fields to print for the caller-visible output, kept outside the unwinding closure.
fn run(f: &[&str], out: &mut Vec<u8>) -> Vec<String> {
    match f[0] {
        "sha" => { let d = unhex(f[3]); *out = vec![0xA5; digest_size(f[1])]; let sp = splits(f[2]); with_hash!(f[1], sha_inc, &d, &sp, out); vec![] }
        "sha1" => { let d = unhex(f[2]); *out = match f[1] { "sha512" => sha2::sha512(&d).to_vec(), "sha384" => sha2::sha384(&d).to_vec(), "sha256" => sha2::sha256(&d).to_vec(), _ => sha2::sha224(&d).to_vec() }; vec![] }
        "shalen" => { let d = unhex(f[2]); *out = vec![0xA5; f[3].parse().unwrap()]; with_hash!(f[1], sha_inc, &d, &[], out); vec![] }
        "shagen" => { let d = pattern(f[2].parse().unwrap(), f[3].parse().unwrap()); *out = vec![0xA5; digest_size(f[1])]; let sp = splits(f[4]); with_hash!(f[1], sha_inc, &d, &sp, out); vec![] }
        "hmac" => { let (k, d) = (unhex(f[2]), unhex(f[4])); let sp = splits(f[3]); *out = with_hash!(f[1], hmac_tag, &k, &d, &sp); vec![] }
        "hmac1" => { let (k, d) = (unhex(f[2]), unhex(f[3])); *out = match f[1] { "sha512" => hmac::hmac_sha512(&k, &d).to_vec(), "sha384" => hmac::hmac_sha384(&k, &d).to_vec(), "sha256" => hmac::hmac_sha256(&k, &d).to_vec(), _ => hmac::hmac_sha224(&k, &d).to_vec() }; vec![] }
        "hmacv" => { let (k, d, t) = (unhex(f[2]), unhex(f[3]), unhex(f[4])); vec![(with_hash!(f[1], hmac_verify, &k, &d, &t) as u8).to_string()] }
        "extract" => { let (s, i) = (unhex(f[2]), unhex(f[3])); *out = vec![0xA5; f[4].parse().unwrap()]; with_hash!(f[1], extract, &s, &i, out); vec![] }
        "expand" => { let (p, i) = (unhex(f[2]), unhex(f[3])); *out = vec![0xA5; f[4].parse().unwrap()]; with_hash!(f[1], expand, &p, &i, out); vec![] }
        "stream" => {
            // ops: n | s<count> (skip) | e<hex> | d<hex> | m<inlen>:<outlen> (mismatched call, caught)
            let mut s = Stream::new(&unhex(f[1]), &unhex(f[2]));
            for op in &f[3..] {
                match op.as_bytes()[0] {
                    b'n' => out.push(s.next().unwrap()),
                    b's' => { let n: u64 = op[1..].parse().unwrap(); for _ in 0..n { s.next().unwrap(); } }
                    b'e' => { let i = unhex(&op[1..]); let mut o = vec![0xA5; i.len()]; s.encrypt(&i, &mut o); out.extend(o); }
                    b'd' => { let i = unhex(&op[1..]); let mut o = vec![0xA5; i.len()]; s.decrypt(&i, &mut o); out.extend(o); }
                    b'm' => {
                        let (a, b) = op[1..].split_once(':').unwrap();
                        let i = vec![0u8; a.parse().unwrap()]; let mut o = vec![0xA5u8; b.parse().unwrap()];
                        let r = catch_unwind(AssertUnwindSafe(|| s.encrypt(&i, &mut o)));
                        out.push(r.is_err() as u8); out.extend(o);
                    }
                    b'w' => {
                        let (a, b) = op[1..].split_once(':').unwrap();
                        let i = vec![0u8; a.parse().unwrap()]; let mut o = vec![0xA5u8; b.parse().unwrap()];
                        let r = catch_unwind(AssertUnwindSafe(|| s.decrypt(&i, &mut o)));
                        out.push(r.is_err() as u8); out.extend(o);
                    }
                    _ => panic!("op"),
                }
            }
            vec![]
        }
        // streamgen key nonce len piece: encrypts a pattern in pieces, prints sha256 of the output
        "streamgen" => {
            let mut s = Stream::new(&unhex(f[1]), &unhex(f[2]));
            let d = pattern(f[3].parse().unwrap(), 1);
            let mut o = vec![0u8; d.len()];
            let p: usize = f[4].parse().unwrap();
            for (a, b) in d.chunks(p).zip(o.chunks_mut(p)) { s.encrypt(a, b); }
            *out = o; vec![]
        }
        "enc" => {
            let (k, n, d, m) = (unhex(f[2]), unhex(f[3]), unhex(f[4]), unhex(f[5]));
            *out = vec![0xA5; f[6].parse().unwrap()];
            let t = with_aead!(f[1], aead_enc, &k, &m, &n, &d, out);
            vec![hex(&t)]
        }
        "encgen" => {
            let (k, n) = (unhex(f[2]), unhex(f[3]));
            let d = pattern(f[4].parse().unwrap(), 3);
            let m = pattern(f[5].parse().unwrap(), 1);
            let mut o = vec![0; m.len()];
            let t = with_aead!(f[1], aead_enc, &k, &m, &n, &d, &mut o);
            // print the tag and the last 64 bytes and the xor-fold of the ciphertext
            let fold = o.chunks(32).fold([0u8; 32], |mut a, c| { for (x, y) in a.iter_mut().zip(c) { *x = x.rotate_left(1) ^ y; } a });
            *out = o[o.len().saturating_sub(64)..].to_vec();
            vec![hex(&t), hex(&fold)]
        }
        "dec" => {
            let (k, n, d, c, t) = (unhex(f[2]), unhex(f[3]), unhex(f[4]), unhex(f[5]), unhex(f[6]));
            *out = vec![f[8].parse().unwrap(); f[7].parse().unwrap()];
            let r = with_aead!(f[1], aead_dec, &k, &c, &n, &d, &t, out);
            vec![(r as u8).to_string()]
        }
        "aes" => {
            let k = unhex(f[2]); let mut b = [0; 16]; b.copy_from_slice(&unhex(f[3]));
            *out = match f[1] { "128" => aes::<Aes128>(&k, &b), "192" => aes::<Aes192>(&k, &b), _ => aes::<Aes256>(&k, &b) }.to_vec(); vec![]
        }
        "x25519" => { *out = curve25519::dh(&unhex(f[1]), &unhex(f[2])).to_vec(); vec![] }
        "x25519pk" => { *out = curve25519::gen_pk(&unhex(f[1])).to_vec(); vec![] }
        "edpk" => { *out = ed25519::gen_pk(&unhex(f[1])).to_vec(); vec![] }
        "edsign" => { *out = ed25519::sign(&unhex(f[2]), &unhex(f[1])).to_vec(); vec![] }
        "edverify" => vec![(ed25519::verify(&unhex(f[3]), &unhex(f[2]), &unhex(f[1])) as u8).to_string()],
        // sign-then-verify round trips: (sk, msg) and (sk, msg, other msg)
        "edround" => { let (k, m) = (unhex(f[1]), unhex(f[2])); vec![(ed25519::verify(&m, &ed25519::sign(&m, &k), &ed25519::gen_pk(&k)) as u8).to_string()] }
        "edround2" => { let (k, m, m2) = (unhex(f[1]), unhex(f[2]), unhex(f[3])); vec![(ed25519::verify(&m2, &ed25519::sign(&m, &k), &ed25519::gen_pk(&k)) as u8).to_string()] }
        "v16" => { let mut x = [0; 16]; x.copy_from_slice(&unhex(f[1])); vec![(util::verify_16(&x, &unhex(f[2])) as u8).to_string()] }
        _ => { eprintln!("unknown command"); std::process::exit(3) }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() { w.flush().unwrap(); continue; }
        let f: Vec<&str> = line.split(' ').collect();
        let mut out = Vec::new();
        let r = catch_unwind(AssertUnwindSafe(|| run(&f, &mut out)));
        match r {
            Ok(x) => writeln!(w, "OK {} {}", hex(&out), x.join(" ")).unwrap(),
            Err(_) => writeln!(w, "PANIC {}", hex(&out)).unwrap(),
        }
        w.flush().unwrap();
    }
}

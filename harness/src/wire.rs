//! An independent codec for the documented protocol. It shares no code with pkstl: the layout is
//! written out here from the documentation, PBKDF2 is done by hand over HMAC, and the AEAD is
//! ring's, not the crate pkstl uses.

use crate::rng::{mix, Rng};
use ring::signature::{Ed25519KeyPair, KeyPair};
use ring::{aead, agreement, digest, hmac};

pub const MAGIC: [u8; 4] = [0xE2, 0xC2, 0xE2, 0xD2];
pub const HEAD: usize = 16;

pub fn sha256(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o.copy_from_slice(digest::digest(&digest::SHA256, b).as_ref());
    o
}

#[derive(Clone, Debug, PartialEq)]
pub enum Head {
    User { nonce: u64 },
    Connect { epk: [u8; 32], pk: Vec<u8> },
    Ack { challenge: [u8; 32] },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Parsed {
    pub head: Head,
    pub body: (usize, usize),
}
impl Parsed {
    pub fn body<'a>(&self, d: &'a [u8]) -> &'a [u8] {
        &d[self.body.0..self.body.1]
    }
    pub fn covered<'a>(&self, d: &'a [u8]) -> &'a [u8] {
        &d[..self.body.1]
    }
    pub fn trailer<'a>(&self, d: &'a [u8]) -> &'a [u8] {
        &d[self.body.1..]
    }
}

/// Parse a clear message (everything before encryption).
pub fn parse(d: &[u8]) -> Result<Parsed, &'static str> {
    if d.len() < HEAD + 2 {
        return Err("too short");
    }
    if d[..4] != MAGIC {
        return Err("magic value");
    }
    if d[4..8] != [0, 0, 0, 1] {
        return Err("version");
    }
    let mut l = [0u8; 8];
    l.copy_from_slice(&d[8..16]);
    let len = u64::from_be_bytes(l);
    if len > (d.len() - HEAD) as u64 {
        return Err("length beyond the data");
    }
    let len = len as usize;
    let t = &d[HEAD..];
    let (head, hl) = match (t[0], t[1]) {
        (0, 0) => {
            if t.len() < 10 {
                return Err("user header");
            }
            let mut n = [0u8; 8];
            n.copy_from_slice(&t[2..10]);
            (
                Head::User {
                    nonce: u64::from_be_bytes(n),
                },
                10,
            )
        }
        (0, 1) => {
            if t.len() < 70 {
                return Err("connect header");
            }
            if t[34..38] != [0, 0, 0, 0] {
                return Err("signature algorithm");
            }
            let mut epk = [0u8; 32];
            epk.copy_from_slice(&t[2..34]);
            (
                Head::Connect {
                    epk,
                    pk: t[38..70].to_vec(),
                },
                70,
            )
        }
        (0, 2) => {
            if t.len() < 34 {
                return Err("ack header");
            }
            let mut challenge = [0u8; 32];
            challenge.copy_from_slice(&t[2..34]);
            (Head::Ack { challenge }, 34)
        }
        _ => return Err("message type"),
    };
    if len < hl {
        return Err("length shorter than the header");
    }
    Ok(Parsed {
        head,
        body: (HEAD + hl, HEAD + len),
    })
}

fn frame(ty: u8, head: &[u8], body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(HEAD + 2 + head.len() + body.len() + 64);
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&[0, 0, 0, 1]);
    v.extend_from_slice(&((2 + head.len() + body.len()) as u64).to_be_bytes());
    v.extend_from_slice(&[0, ty]);
    v.extend_from_slice(head);
    v.extend_from_slice(body);
    v
}
pub fn connect_unsigned(epk: &[u8], algo: [u8; 4], pk: &[u8], custom: &[u8]) -> Vec<u8> {
    let mut h = Vec::with_capacity(68);
    h.extend_from_slice(epk);
    h.extend_from_slice(&algo);
    h.extend_from_slice(pk);
    frame(1, &h, custom)
}
pub fn ack_unsigned(challenge: &[u8], custom: &[u8]) -> Vec<u8> {
    frame(2, challenge, custom)
}
pub fn user_plain(nonce: u64, body: &[u8]) -> Vec<u8> {
    let mut v = frame(0, &nonce.to_be_bytes(), body);
    let h = sha256(&v);
    v.extend_from_slice(&h);
    v
}

// ------------------------------------------------------------------ keys

pub struct Identity {
    pub seed: [u8; 32],
    pub kp: Ed25519KeyPair,
    pub pk: Vec<u8>,
}
pub fn identity(n: u8) -> Identity {
    let mut r = Rng::new(mix(&[0x1D, u64::from(n)]));
    let mut seed = [0u8; 32];
    for c in seed.chunks_mut(8) {
        c.copy_from_slice(&r.next_u64().to_le_bytes());
    }
    let kp = Ed25519KeyPair::from_seed_unchecked(&seed).expect("seed");
    let pk = kp.public_key().as_ref().to_vec();
    Identity { seed, kp, pk }
}
pub const IDENTITIES: u8 = 8;
thread_local! {
    static IDS: Vec<Identity> = (0..IDENTITIES).map(identity).collect();
}
pub fn with_id<T>(n: u8, f: impl FnOnce(&Identity) -> T) -> T {
    IDS.with(|v| f(&v[(n % IDENTITIES) as usize]))
}
pub fn id_pk(n: u8) -> Vec<u8> {
    with_id(n, |i| i.pk.clone())
}
pub fn sign(n: u8, m: &[u8]) -> Vec<u8> {
    with_id(n, |i| i.kp.sign(m).as_ref().to_vec())
}
pub fn verify(pk: &[u8], m: &[u8], sig: &[u8]) -> bool {
    ring::signature::UnparsedPublicKey::new(&ring::signature::ED25519, pk)
        .verify(m, sig)
        .is_ok()
}

pub fn x25519_bytes(label: u64) -> [u8; 32] {
    let mut r = Rng::new(mix(&[0x25519, label]));
    let mut k = [0u8; 32];
    for c in k.chunks_mut(8) {
        c.copy_from_slice(&r.next_u64().to_le_bytes());
    }
    k
}
fn x25519_key(k: &[u8; 32]) -> agreement::EphemeralPrivateKey {
    let rng = ring::test::rand::FixedSliceRandom { bytes: &k[..] };
    agreement::EphemeralPrivateKey::generate(&agreement::X25519, &rng).expect("x25519")
}
pub fn x25519_public(k: &[u8; 32]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o.copy_from_slice(x25519_key(k).compute_public_key().expect("x25519").as_ref());
    o
}
pub fn x25519(k: &[u8; 32], peer: &[u8]) -> Option<[u8; 32]> {
    agreement::agree_ephemeral(
        x25519_key(k),
        &agreement::UnparsedPublicKey::new(&agreement::X25519, peer),
        (),
        |s| {
            let mut o = [0u8; 32];
            o.copy_from_slice(s);
            Ok(o)
        },
    )
    .ok()
}

/// PBKDF2-HMAC-SHA384, 3 iterations, 48 bytes; the salt is the greater ephemeral public key.
pub fn derive(shared: &[u8], epk1: &[u8], epk2: &[u8]) -> [u8; 48] {
    let salt = if epk1 > epk2 { epk1 } else { epk2 };
    let key = hmac::Key::new(hmac::HMAC_SHA384, shared);
    let mut first = salt.to_vec();
    first.extend_from_slice(&[0, 0, 0, 1]);
    let mut u = hmac::sign(&key, &first).as_ref().to_vec();
    let mut t = u.clone();
    for _ in 1..3 {
        u = hmac::sign(&key, &u).as_ref().to_vec();
        for (a, b) in t.iter_mut().zip(&u) {
            *a ^= b;
        }
    }
    let mut o = [0u8; 48];
    o.copy_from_slice(&t);
    o
}

fn aead_key(secret: &[u8; 48]) -> (aead::LessSafeKey, aead::Nonce, [u8; 4]) {
    let key = aead::UnboundKey::new(&aead::CHACHA20_POLY1305, &secret[..32]).expect("key");
    let mut n = [0u8; 12];
    n.copy_from_slice(&secret[32..44]);
    let mut a = [0u8; 4];
    a.copy_from_slice(&secret[44..48]);
    (
        aead::LessSafeKey::new(key),
        aead::Nonce::assume_unique_for_key(n),
        a,
    )
}
pub fn seal(secret: &[u8; 48], plain: &[u8]) -> Vec<u8> {
    let (k, n, a) = aead_key(secret);
    let mut v = plain.to_vec();
    k.seal_in_place_append_tag(n, aead::Aad::from(a), &mut v)
        .expect("seal");
    v
}
pub fn open(secret: &[u8; 48], data: &[u8]) -> Option<Vec<u8>> {
    let (k, n, a) = aead_key(secret);
    let mut v = data.to_vec();
    let l = k.open_in_place(n, aead::Aad::from(a), &mut v).ok()?.len();
    v.truncate(l);
    Some(v)
}

/// Is it one of them, in any of its encodings?
pub fn is_low_order(p: &[u8; 32]) -> bool {
    (0..6).any(|n| low_order(n) == *p) || x25519(&x25519_bytes(1), p).is_none()
}
/// Points that contribute nothing to an X25519 agreement.
pub fn low_order(n: u8) -> [u8; 32] {
    let mut p = [0u8; 32];
    match n % 6 {
        0 => {}
        1 => p[0] = 1,
        2 => {
            // 2^255 - 20 (p - 1)
            p = [0xff; 32];
            p[0] = 0xec;
            p[31] = 0x7f;
        }
        3 => {
            p = [0xff; 32];
            p[0] = 0xed;
            p[31] = 0x7f;
        }
        4 => {
            p = [0xff; 32];
            p[0] = 0xee;
            p[31] = 0x7f;
        }
        _ => {
            p = [
                0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f,
                0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16,
                0x5f, 0x49, 0xb8, 0x00,
            ]
        }
    }
    p
}

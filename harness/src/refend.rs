//! An endpoint written from the documentation. It plays the peer: an honest one for
//! interoperability, and the body of a malicious one (its keys are known to the simulator).

use crate::node::Ev;
use crate::types::*;
use crate::wire::{self, Head};
use std::collections::BTreeSet;
use std::io::Write as _;

pub struct RefEnd {
    pub priv_key: [u8; 32],
    pub epk: [u8; 32],
    pub id: u8,
    expect: Option<Vec<u8>>,
    mode: Mode,
    pub cfg: Cfg,
    peer_epk: Option<[u8; 32]>,
    pub secret: Option<[u8; 48]>,
    sent_connect: bool,
    sent_ack: bool,
    got_ack: bool,
    dead: bool,
    held_ack: Option<Vec<u8>>,
    early: Vec<(u64, Vec<u8>)>,
    next_out: u64,
    low: u64,
    seen: BTreeSet<u64>,
}

/// Encode application data the way the documentation of the layers says.
pub fn encode_body(mode: Mode, cfg: &Cfg, p: &Pay) -> Result<Vec<u8>, String> {
    let plain = plain_body(mode, cfg, p)?;
    if mode == Mode::Raw {
        return Ok(plain);
    }
    Ok(deflate(&plain, u32::from(cfg.level.min(10))))
}
/// What is then compressed.
pub fn plain_body(mode: Mode, cfg: &Cfg, p: &Pay) -> Result<Vec<u8>, String> {
    Ok(match mode {
        Mode::Raw | Mode::Zip => p.bytes(),
        Mode::Ser => {
            let mut v = vec![0, 0, 0, cfg.fmt];
            let d = p.app();
            match cfg.fmt {
                2 => v.extend(serde_json::to_vec(&d).map_err(|e| e.to_string())?),
                3 => v.extend(serde_cbor::to_vec(&d).map_err(|e| e.to_string())?),
                4 => v.extend(bincode::serialize(&d).map_err(|e| e.to_string())?),
                _ => return Err("format".into()),
            }
            v
        }
    })
}
/// Is a body of `body` bytes what the configured threshold and level make of this payload?
/// None: yes; the tolerance is for another way of feeding the same compressor.
pub fn ill_compressed(mode: Mode, cfg: &Cfg, p: &Pay, body: usize) -> Option<String> {
    let plain = match plain_body(mode, cfg, p) {
        Ok(v) if mode != Mode::Raw => v,
        _ => return None,
    };
    if plain.len() < cfg.min as usize || cfg.level == 0 {
        if body < plain.len() {
            return Some(format!("{} bytes made {} although below the threshold {} or at level {}", plain.len(), body, cfg.min, cfg.level));
        }
    } else if plain.len() < 2_000_000 || p.seed % 4 == 0 {
        let want = deflate(&plain, u32::from(cfg.level.min(10))).len();
        if body > want + want / 16 + 16 || body + want / 16 + 16 < want {
            return Some(format!("{} bytes made {}, not about {}, with threshold {} and level {}", plain.len(), body, want, cfg.min, cfg.level));
        }
    }
    None
}
pub fn deflate(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(b).expect("deflate");
    e.finish().expect("deflate")
}
fn inflate(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut d = flate2::write::DeflateDecoder::new(Vec::new());
    d.write_all(b).map_err(|e| e.to_string())?;
    d.finish().map_err(|e| e.to_string())
}
pub fn decode_body(mode: Mode, b: &[u8]) -> Result<Vec<u8>, String> {
    if mode == Mode::Raw {
        return Ok(b.to_vec());
    }
    let v = inflate(b)?;
    if mode == Mode::Zip {
        return Ok(v);
    }
    if v.len() < 4 {
        return Err("short".into());
    }
    let d: App = match v[..4] {
        [0, 0, 0, 2] => serde_json::from_slice(&v[4..]).map_err(|e| e.to_string())?,
        [0, 0, 0, 3] => serde_cbor::from_slice(&v[4..]).map_err(|e| e.to_string())?,
        [0, 0, 0, 4] => bincode::deserialize(&v[4..]).map_err(|e| e.to_string())?,
        _ => return Err("format".into()),
    };
    Ok(app_bytes(&d))
}

impl RefEnd {
    pub fn new(label: u64, id: u8, expect: Option<Vec<u8>>, mode: Mode, cfg: Cfg) -> RefEnd {
        let priv_key = wire::x25519_bytes(label);
        RefEnd {
            priv_key,
            epk: wire::x25519_public(&priv_key),
            id,
            expect,
            mode,
            cfg,
            peer_epk: None,
            secret: None,
            sent_connect: false,
            sent_ack: false,
            got_ack: false,
            dead: false,
            held_ack: None,
            early: vec![],
            next_out: 0,
            low: 0,
            seen: BTreeSet::new(),
        }
    }
    fn up(&self) -> bool {
        !self.dead && self.sent_ack && self.got_ack
    }
    fn custom(&self, b: &[u8]) -> Result<Option<Vec<u8>>, String> {
        if b.is_empty() {
            Ok(None)
        } else {
            decode_body(self.mode, b).map(Some)
        }
    }
    fn coded(&self, custom: &Option<Pay>) -> Result<Vec<u8>, String> {
        match custom {
            None => Ok(vec![]),
            Some(p) => encode_body(self.mode, &self.cfg, p),
        }
    }
    pub fn connect(&mut self, custom: &Option<Pay>) -> Result<Vec<u8>, String> {
        if self.dead || self.sent_connect {
            return Err("connect not now".into());
        }
        let c = self.coded(custom)?;
        self.sent_connect = true;
        let mut m = wire::connect_unsigned(&self.epk, [0; 4], &wire::id_pk(self.id), &c);
        let s = wire::sign(self.id, &m);
        m.extend_from_slice(&s);
        Ok(m)
    }
    pub fn ack(&mut self, custom: &Option<Pay>) -> Result<Vec<u8>, String> {
        let peer = match self.peer_epk {
            Some(p) if !self.dead && !self.sent_ack => p,
            _ => return Err("ack not now".into()),
        };
        let c = self.coded(custom)?;
        self.sent_ack = true;
        let mut m = wire::ack_unsigned(&wire::sha256(&peer), &c);
        let s = wire::sign(self.id, &m);
        m.extend_from_slice(&s);
        Ok(m)
    }
    pub fn write(&mut self, p: &Pay) -> Result<Vec<u8>, String> {
        if !self.up() {
            self.dead = true;
            return Err("not established".into());
        }
        let b = encode_body(self.mode, &self.cfg, p)?;
        let m = wire::user_plain(self.next_out, &b);
        self.next_out += 1;
        Ok(wire::seal(&self.secret.ok_or("no secret")?, &m))
    }
    fn kill<T>(&mut self, e: &str) -> Result<T, String> {
        self.dead = true;
        Err(e.into())
    }
    pub fn read(&mut self, d: &[u8]) -> Result<Vec<Ev>, String> {
        if self.dead {
            return Err("dead".into());
        }
        if d.len() >= 4 && d[..4] == wire::MAGIC {
            let p = match wire::parse(d) {
                Ok(p) => p,
                Err(e) => return self.kill(e),
            };
            match p.head {
                Head::User { .. } => self.kill("clear user message"),
                Head::Connect { epk, ref pk } => {
                    if epk == self.epk {
                        return Err("own connect".into());
                    }
                    if self.expect.as_ref().map_or(false, |e| e != pk) {
                        return Err("other key".into());
                    }
                    if !wire::verify(pk, p.covered(d), p.trailer(d)) {
                        return Err("signature".into());
                    }
                    if self.peer_epk.is_some() {
                        return self.kill("second connect");
                    }
                    let s = match wire::x25519(&self.priv_key, &epk) {
                        Some(s) => s,
                        None => return self.kill("agreement"),
                    };
                    let custom = self.custom(p.body(d))?;
                    self.secret = Some(wire::derive(&s, &self.epk, &epk));
                    self.peer_epk = Some(epk);
                    self.expect = Some(pk.clone());
                    let mut evs = vec![Ev::Connect { pk: pk.clone(), custom }];
                    if let Some(a) = self.held_ack.take() {
                        match self.read(&a) {
                            Ok(more) => evs.extend(more),
                            // not from this peer
                            Err(e) if e == "signature" => {}
                            Err(e) => return Err(e),
                        }
                    }
                    Ok(evs)
                }
                Head::Ack { challenge } => {
                    if challenge != wire::sha256(&self.epk) {
                        return Err("challenge".into());
                    }
                    let pk = match &self.expect {
                        Some(k) => k.clone(),
                        None if self.held_ack.is_none() => {
                            self.held_ack = Some(d.to_vec());
                            return Ok(vec![]);
                        }
                        None => return self.kill("second early ack"),
                    };
                    if !wire::verify(&pk, p.covered(d), p.trailer(d)) {
                        return Err("signature".into());
                    }
                    if self.got_ack || !self.sent_connect {
                        return self.kill("second ack");
                    }
                    let custom = self.custom(p.body(d))?;
                    self.got_ack = true;
                    let mut evs = vec![Ev::Ack { custom }];
                    if self.up() {
                        for (n, b) in std::mem::take(&mut self.early) {
                            evs.extend(self.user(n, &b)?);
                        }
                    }
                    Ok(evs)
                }
            }
        } else {
            let secret = match self.secret {
                Some(s) => s,
                None => return self.kill("encrypted before the key is known"),
            };
            let plain = match wire::open(&secret, d) {
                Some(p) => p,
                None => return self.kill("does not decrypt"),
            };
            let p = match wire::parse(&plain) {
                Ok(p) => p,
                Err(e) => return self.kill(e),
            };
            let nonce = match p.head {
                Head::User { nonce } => nonce,
                _ => return self.kill("encrypted handshake message"),
            };
            if nonce < self.low
                || self.seen.contains(&nonce)
                || self.early.iter().any(|(n, _)| *n == nonce)
            {
                return Err("replay".into());
            }
            if !self.up() {
                if self.sent_ack && self.sent_connect && !self.got_ack {
                    self.early.push((nonce, plain));
                    return Ok(vec![]);
                }
                return self.kill("user message too early");
            }
            self.user(nonce, &plain)
        }
    }
    fn user(&mut self, nonce: u64, plain: &[u8]) -> Result<Vec<Ev>, String> {
        let p = wire::parse(plain)?;
        if wire::sha256(p.covered(plain)) != p.trailer(plain) {
            return Err("hash".into());
        }
        if nonce == self.low {
            self.low += 1;
            while self.seen.remove(&self.low) {
                self.low += 1;
            }
        } else {
            if self.seen.len() >= 10_000 {
                return self.kill("window");
            }
            self.seen.insert(nonce);
        }
        let b = p.body(plain);
        Ok(vec![Ev::User {
            data: if self.mode == Mode::Raw { b.to_vec() } else { decode_body(self.mode, b)? },
        }])
    }
}

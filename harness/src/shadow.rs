//! The reference model: a small executable statement of what one handle must do next. It works on
//! facts the simulator knows (who wrote which bytes in which session), not on cryptography, except
//! that signatures of clear messages are verified for real.

use crate::node::Ev;
use crate::refend::decode_body;
use crate::types::*;
use crate::wire::{self, Head};
use std::collections::{BTreeSet, HashMap};
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let h = if self.0 == 0 { crate::rng::FNV0 } else { self.0 };
        self.0 = crate::rng::fnv(h, b);
    }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fnv>>;

pub type Sess = ([u8; 32], [u8; 32]);
pub fn sess(a: [u8; 32], b: [u8; 32]) -> Sess {
    if a < b {
        (a, b)
    } else {
        (b, a)
    }
}

#[derive(Clone, Debug)]
pub enum CBody {
    /// written by an application through an endpoint
    Written { nonce: u64, data: Vec<u8> },
    /// made by an endpoint that abuses its key: the plaintext
    Plain(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct CMeta {
    pub sess: Sess,
    pub ep: u32,
    pub body: CBody,
}
/// Who made which bytes.
#[derive(Default)]
pub struct Reg {
    /// handshake datagrams: the custom data the application gave
    pub clear: Map<Vec<u8>, Option<Vec<u8>>>,
    pub cipher: Map<Vec<u8>, Vec<CMeta>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    AlreadyFailed,
    Malformed,
    ClearUser,
    EncHandshake,
    NoKey,
    Undecryptable,
    CrossSession,
    Reflected,
    Replay,
    BadHash,
    UserTooEarly,
    WrongIdentity,
    BadSig,
    SigLen,
    BadChallenge,
    OwnConnect,
    DupConnect,
    DupAck,
    EarlyAckTwice,
    Window,
    LowOrder,
    BodyCodec,
    // calls
    CallAgain,
    CallTooEarly,
    CallNotEst,
    CallFormat,
    WriteFailed,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Events(Vec<Ev>),
    Reject(Why),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Local {
    Created,
    Sent,
    Acked,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Remote {
    Wait,
    Got,
    AckSent,
}

#[derive(Clone)]
pub struct Shadow {
    pub kind: Kind,
    pub ep: u32,
    pub cfg: Cfg,
    pub local: Local,
    pub remote: Remote,
    pub est: bool,
    pub fail: Option<Why>,
    /// nothing is known for sure about failure any more: errors are accepted, successes still checked
    pub lenient: bool,
    /// bodies nobody's application encoded and that nonetheless decode: taking them or not is left open
    pub odd: u64,
    pub clone: bool,
    pub cloned: bool,
    pub pinned: Option<Vec<u8>>,
    pub own_epk: Option<[u8; 32]>,
    pub peer_epk: Option<[u8; 32]>,
    pub held_ack: Option<Vec<u8>>,
    pub early: Vec<(u64, CMeta)>,
    pub next: u64,
    pub orphans: BTreeSet<u64>,
    pub next_out: u64,
    // history used to name what broke
    pub refused_handshakes: u32,
    pub refused_calls: u32,
    pub delivered_users: u64,
    pub io_faults: u32,
    pub cfg_changes: u32,
    pub ent_faults: bool,
    pub dropped_sibling: bool,
    pub max_orphans: usize,
    pub early_dups: u32,
    pub early_n: usize,
}

impl Shadow {
    pub fn new(kind: Kind, ep: u32, cfg: Cfg, pinned: Option<Vec<u8>>) -> Shadow {
        Shadow {
            kind,
            ep,
            cfg,
            local: Local::Created,
            remote: Remote::Wait,
            est: false,
            fail: None,
            lenient: false,
            odd: 0,
            clone: false,
            cloned: false,
            pinned,
            own_epk: None,
            peer_epk: None,
            held_ack: None,
            early: vec![],
            next: 0,
            orphans: BTreeSet::new(),
            next_out: 0,
            refused_handshakes: 0,
            refused_calls: 0,
            delivered_users: 0,
            io_faults: 0,
            cfg_changes: 0,
            ent_faults: false,
            dropped_sibling: false,
            max_orphans: 0,
            early_dups: 0,
            early_n: 0,
        }
    }
    /// A copy without the big sets.
    pub fn brief(&mut self) -> Shadow {
        let o = std::mem::take(&mut self.orphans);
        let e = std::mem::take(&mut self.early);
        let mut b = self.clone();
        self.orphans = o;
        self.early = e;
        b.early_n = self.early.len();
        b
    }
    pub fn live(&self) -> bool {
        self.est && self.fail.is_none()
    }
    pub fn sess(&self) -> Option<Sess> {
        Some(sess(self.own_epk?, self.peer_epk?))
    }
    fn die(&mut self, w: Why) -> Exp {
        if self.fail.is_none() {
            self.fail = Some(w);
        }
        Exp::Reject(w)
    }
    fn refuse(&mut self, w: Why) -> Exp {
        self.refused_handshakes += 1;
        Exp::Reject(w)
    }
    fn settle(&mut self) {
        if self.local == Local::Acked && self.remote == Remote::AckSent {
            self.est = true;
        }
    }
    fn opt(&self, c: &Option<Vec<u8>>) -> Option<Vec<u8>> {
        match c {
            Some(v) if v.is_empty() && self.kind.mode() == Mode::Raw => None,
            c => c.clone(),
        }
    }
    fn custom(&mut self, reg: &Reg, d: &[u8], body: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        if let Some(c) = reg.clear.get(d) {
            return Ok(self.opt(c));
        }
        if body.is_empty() {
            return Ok(None);
        }
        if self.kind.mode() != Mode::Raw {
            self.odd += 1;
        }
        decode_body(self.kind.mode(), body).map(Some).map_err(|_| ())
    }

    pub fn read(&mut self, reg: &Reg, d: &[u8]) -> Exp {
        if self.fail.is_some() {
            return Exp::Reject(Why::AlreadyFailed);
        }
        if d.len() >= 4 && d[..4] == wire::MAGIC {
            self.read_clear(reg, d)
        } else {
            self.read_cipher(reg, d)
        }
    }
    fn read_clear(&mut self, reg: &Reg, d: &[u8]) -> Exp {
        let p = match wire::parse(d) {
            Ok(p) => p,
            Err(_) => return self.die(Why::Malformed),
        };
        if p.trailer(d).len() != 64 && !matches!(p.head, Head::User { .. }) {
            // refused; whether it also counts as undecodable is left open
            self.lenient = true;
            return self.refuse(Why::SigLen);
        }
        match p.head {
            Head::User { .. } => self.die(Why::ClearUser),
            Head::Connect { epk, ref pk } => {
                if self.own_epk == Some(epk) {
                    return self.refuse(Why::OwnConnect);
                }
                if self.pinned.as_ref().map_or(false, |k| k != pk) {
                    return self.refuse(Why::WrongIdentity);
                }
                if !wire::verify(pk, p.covered(d), p.trailer(d)) {
                    return self.refuse(Why::BadSig);
                }
                if self.est || self.remote != Remote::Wait {
                    return self.die(Why::DupConnect);
                }
                if wire::is_low_order(&epk) {
                    return self.die(Why::LowOrder);
                }
                self.remote = Remote::Got;
                self.pinned = Some(pk.clone());
                self.peer_epk = Some(epk);
                let custom = match self.custom(reg, d, p.body(d)) {
                    Ok(c) => c,
                    Err(()) => {
                        self.lenient = true;
                        return Exp::Reject(Why::BodyCodec);
                    }
                };
                let mut evs = vec![Ev::Connect { pk: pk.clone(), custom }];
                if self.kind.auto() {
                    match self.take_ack(reg) {
                        Exp::Events(e) => evs.extend(e),
                        Exp::Reject(Why::BadSig) => {}
                        Exp::Reject(w) => return Exp::Reject(w),
                    }
                }
                Exp::Events(evs)
            }
            Head::Ack { challenge } => {
                if self.own_epk.map(|e| wire::sha256(&e)) != Some(challenge) {
                    return self.refuse(Why::BadChallenge);
                }
                let pk = match &self.pinned {
                    Some(k) => k.clone(),
                    None if self.held_ack.is_none() => {
                        self.held_ack = Some(d.to_vec());
                        return Exp::Events(vec![]);
                    }
                    None => return self.die(Why::EarlyAckTwice),
                };
                if !wire::verify(&pk, p.covered(d), p.trailer(d)) {
                    return self.refuse(Why::BadSig);
                }
                if self.est || self.local != Local::Sent {
                    return self.die(Why::DupAck);
                }
                self.local = Local::Acked;
                self.settle();
                let custom = match self.custom(reg, d, p.body(d)) {
                    Ok(c) => c,
                    Err(()) => {
                        self.lenient = true;
                        return Exp::Reject(Why::BodyCodec);
                    }
                };
                let mut evs = vec![Ev::Ack { custom }];
                if self.kind.auto() && self.est {
                    match self.drain(reg) {
                        Exp::Events(e) => evs.extend(e),
                        r => return r,
                    }
                }
                Exp::Events(evs)
            }
        }
    }
    fn read_cipher(&mut self, reg: &Reg, d: &[u8]) -> Exp {
        if self.peer_epk.is_none() {
            return self.die(Why::NoKey);
        }
        let my = self.sess();
        let metas = match reg.cipher.get(d) {
            None => return self.die(Why::Undecryptable),
            Some(m) => m,
        };
        let mine: Vec<&CMeta> = metas.iter().filter(|m| Some(m.sess) == my).collect();
        if mine.is_empty() {
            return self.die(Why::CrossSession);
        }
        let meta = match mine.iter().find(|m| m.ep != self.ep) {
            Some(m) => (*m).clone(),
            None => return Exp::Reject(Why::Reflected),
        };
        self.user(meta, true)
    }
    /// a message of this session, decrypted
    fn user(&mut self, m: CMeta, fresh: bool) -> Exp {
        let (nonce, hash_ok) = match &m.body {
            CBody::Written { nonce, .. } => (*nonce, true),
            CBody::Plain(p) => match wire::parse(p) {
                Err(_) => return self.die(Why::Malformed),
                Ok(x) => match x.head {
                    Head::User { nonce } => (nonce, wire::sha256(x.covered(p)) == x.trailer(p)),
                    _ => return self.die(Why::EncHandshake),
                },
            },
        };
        if nonce < self.next || self.orphans.contains(&nonce) {
            return Exp::Reject(Why::Replay);
        }
        if fresh && self.early.iter().any(|(n, _)| *n == nonce) {
            self.early_dups += 1;
            return Exp::Reject(Why::Replay);
        }
        if !self.est {
            if self.remote == Remote::AckSent && self.local == Local::Sent {
                if !hash_ok {
                    self.lenient = true; // may be refused now or when it is handed over
                }
                self.early.push((nonce, m));
                return Exp::Events(vec![]);
            }
            return self.die(Why::UserTooEarly);
        }
        if !hash_ok {
            self.lenient = true;
            return Exp::Reject(Why::BadHash);
        }
        if nonce == self.next {
            self.next += 1;
            while self.orphans.remove(&self.next) {
                self.next += 1;
            }
        } else {
            if self.orphans.len() >= 10_000 {
                return self.die(Why::Window);
            }
            self.orphans.insert(nonce);
            self.max_orphans = self.max_orphans.max(self.orphans.len());
        }
        let data = match m.body {
            CBody::Written { data, .. } => data,
            CBody::Plain(p) => {
                let x = match wire::parse(&p) {
                    Ok(x) => x,
                    Err(_) => return Exp::Reject(Why::Malformed),
                };
                if self.kind.mode() != Mode::Raw {
                    self.odd += 1;
                }
                match decode_body(self.kind.mode(), x.body(&p)) {
                    Ok(v) => v,
                    Err(_) => {
                        self.lenient = true;
                        return Exp::Reject(Why::BodyCodec);
                    }
                }
            }
        };
        self.delivered_users += 1;
        Exp::Events(vec![Ev::User { data }])
    }
    pub fn take_ack(&mut self, reg: &Reg) -> Exp {
        match self.held_ack.take() {
            None => Exp::Events(vec![]),
            Some(a) => self.read(reg, &a),
        }
    }
    pub fn drain(&mut self, _reg: &Reg) -> Exp {
        let early = std::mem::take(&mut self.early);
        if early.is_empty() {
            return Exp::Events(vec![]);
        }
        if self.fail.is_some() {
            return Exp::Reject(Why::AlreadyFailed);
        }
        let mut evs = vec![];
        let mut bad = None;
        let (next, orphans) = (self.next, self.orphans.clone());
        for (_, m) in early {
            match self.user(m, false) {
                Exp::Events(e) => evs.extend(e),
                Exp::Reject(w) => {
                    bad = Some(w);
                    if self.fail.is_some() {
                        return Exp::Reject(w);
                    }
                }
            }
        }
        match bad {
            // only a peer that abuses its key gets here
            // and whether the rest of the batch counts as received is left open
            Some(w) => {
                self.lenient = true;
                self.next = next;
                self.orphans = orphans;
                Exp::Reject(w)
            }
            None => Exp::Events(evs),
        }
    }

    // -------------------------------------------------------------- calls

    /// Whether the configured format can express this.
    pub fn format_ok(&self, pay: Option<&Pay>) -> bool {
        self.kind.mode() != Mode::Ser || pay.map_or(true, |p| self.cfg.can_serialise() && p.style != 6)
    }
    pub fn connect(&mut self, custom: Option<&Pay>) -> Result<(), Why> {
        let r = if self.fail.is_some() {
            Err(Why::AlreadyFailed)
        } else if self.est || self.local != Local::Created {
            Err(Why::CallAgain)
        } else if !self.format_ok(custom) {
            Err(Why::CallFormat)
        } else {
            self.local = Local::Sent;
            Ok(())
        };
        if r.is_err() {
            self.refused_calls += 1;
        }
        r
    }
    pub fn ack(&mut self, custom: Option<&Pay>) -> Result<(), Why> {
        let r = if self.fail.is_some() {
            Err(Why::AlreadyFailed)
        } else if self.remote != Remote::Got || self.clone {
            Err(if self.remote == Remote::Wait { Why::CallTooEarly } else { Why::CallAgain })
        } else if !self.format_ok(custom) {
            Err(Why::CallFormat)
        } else {
            self.remote = Remote::AckSent;
            self.settle();
            Ok(())
        };
        if r.is_err() {
            self.refused_calls += 1;
        }
        r
    }
    pub fn write(&mut self, pay: Option<&Pay>) -> Result<(), Why> {
        let r = if self.fail.is_some() {
            Err(Why::AlreadyFailed)
        } else if !self.format_ok(pay) {
            if !self.est {
                self.lenient = true; // refused for the format or for the state
            }
            Err(Why::CallFormat)
        } else if !self.est {
            self.fail = Some(Why::CallNotEst);
            Err(Why::CallNotEst)
        } else {
            Ok(())
        };
        if r.is_err() {
            self.refused_calls += 1;
        }
        r
    }
    pub fn can_clone(&self) -> Result<(), Why> {
        if self.fail.is_some() {
            Err(Why::AlreadyFailed)
        } else if !self.est {
            Err(Why::CallNotEst)
        } else {
            Ok(())
        }
    }
    /// Abstract state, for counting the distinct states reached.
    pub fn fingerprint(&self) -> u64 {
        let o = match self.orphans.len() {
            0 => 0,
            1 => 1,
            2..=7 => 2,
            8..=127 => 3,
            128..=9_998 => 4,
            9_999 => 5,
            _ => 6,
        };
        let v = [
            self.kind as u8,
            self.local as u8,
            self.remote as u8,
            u8::from(self.est),
            self.fail.map_or(255, |w| w as u8),
            u8::from(self.pinned.is_some()),
            u8::from(self.held_ack.is_some()),
            self.early.len().min(3) as u8,
            o,
            u8::from(self.clone),
            u8::from(self.cloned),
            self.next.min(3) as u8,
            self.next_out.min(3) as u8,
            self.refused_handshakes.min(3) as u8,
            self.refused_calls.min(2) as u8,
            u8::from(self.lenient),
        ];
        crate::rng::fnv(crate::rng::FNV0, &v)
    }
}

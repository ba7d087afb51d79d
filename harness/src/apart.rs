//! Oracles that need no model. A run of one property's check that breaks another property first is
//! not over: what broke is put aside, the model is left behind ("adrift"), and the rest of the run is
//! judged by a ledger of what was really written, delivered, sent and accepted.

use crate::node::{Ev, WriteOut};
use crate::refend::decode_body;
use crate::rng::{fnv, FNV0};
use crate::shadow::*;
use crate::sim::*;
use crate::types::*;
use crate::wire::{self, Head};
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Wrote {
    pub ep: u32,
    pub own: Option<[u8; 32]>,
    pub peer: Option<[u8; 32]>,
    pub nonce: Option<u64>,
}
/// What really happened on one handle.
#[derive(Clone, Default)]
pub struct Led {
    pub expect: Option<Vec<u8>>,
    pub conn_out: u32,
    pub ack_out: u32,
    pub conn_in: u32,
    pub ack_in: u32,
    /// handshake datagrams it was given
    pub inputs: Vec<Vec<u8>>,
    /// user messages delivered, by content
    pub got: Map<u64, u32>,
    pub nonces: BTreeSet<(u32, u64)>,
    /// it was given or did something that ends a connection in every state
    pub dead: bool,
    known: Option<(usize, Vec<Vec<u8>>, bool)>,
}
impl Led {
    pub fn new(expect: Option<Vec<u8>>) -> Led {
        Led { expect, ..Led::default() }
    }
    fn brief(&self) -> Led {
        Led {
            conn_out: self.conn_out,
            ack_out: self.ack_out,
            conn_in: self.conn_in,
            ack_in: self.ack_in,
            dead: self.dead,
            ..Led::default()
        }
    }
    pub fn up(&self) -> bool {
        self.conn_out > 0 && self.ack_out > 0 && self.conn_in > 0 && self.ack_in > 0
    }
}
fn key(d: &[u8]) -> u64 {
    fnv(FNV0, d)
}

impl Sim {
    /// Does the run go on although this was violated?
    pub fn put_aside(&mut self, v: &Viol) -> bool {
        match self.goal {
            Some(g) if !v.tags.contains(&g) => {}
            _ => return false,
        }
        if self.soft.len() < 4 {
            self.soft.push(v.clone());
        }
        self.note(&format!("[put aside: {:?} {}: {}]", v.tags, v.class, v.detail));
        self.go_adrift();
        true
    }
    pub fn go_adrift(&mut self) {
        if !self.adrift {
            self.adrift = true;
            for h in self.hs.values_mut() {
                h.led.dead |= h.sh.fail.is_some();
            }
            self.stats.add("runs_continued_without_model", 1);
        }
    }

    // ------------------------------------------------------------ the ledger

    pub fn led_input(&mut self, hid: u32, d: &[u8]) {
        let clear = d.len() >= 4 && d[..4] == wire::MAGIC;
        let unknown = !clear && !self.reg.cipher.contains_key(d);
        let adrift = self.adrift;
        if let Some(h) = self.hs.get_mut(&hid) {
            if clear && h.led.inputs.len() < 1000 && d.len() < 3_000_000 {
                h.led.inputs.push(d.to_vec());
            }
            if adrift {
                h.led.dead |= unknown
                    || (clear && matches!(wire::parse(d), Err(_) | Ok(wire::Parsed { head: Head::User { .. }, .. })));
            }
        }
    }
    pub fn led_wrote(&mut self, ep: u32, own: Option<[u8; 32]>, peer: Option<[u8; 32]>, nonce: Option<u64>, data: &[u8]) {
        self.wrote.entry(key(data)).or_default().push(Wrote { ep, own, peer, nonce });
    }
    pub fn led_crafted(&mut self, h: u32, plain: &[u8]) {
        let (ep, own, peer, mode) = match self.hs.get(&h) {
            Some(x) => (x.sh.ep, x.sh.own_epk, x.sh.peer_epk, x.sh.kind.mode()),
            None => return,
        };
        if let Ok(p) = wire::parse(plain) {
            if let Head::User { nonce } = p.head {
                if wire::sha256(p.covered(plain)) == p.trailer(plain) {
                    if let Ok(d) = decode_body(mode, p.body(plain)) {
                        self.led_wrote(ep, own, peer, Some(nonce), &d);
                    }
                }
            }
        }
    }
    fn led_event(&mut self, hid: u32, ev: &Ev) {
        if let Some(h) = self.hs.get_mut(&hid) {
            match ev {
                Ev::Connect { .. } => h.led.conn_in += 1,
                Ev::Ack { .. } => h.led.ack_in += 1,
                Ev::User { data } => *h.led.got.entry(key(data)).or_insert(0) += 1,
            }
        }
    }
    /// Keys whose owner signed a CONNECT this handle was given, and may be its peer.
    fn signers(&self, hid: u32) -> Vec<Vec<u8>> {
        let h = &self.hs[&hid];
        let mut v = vec![];
        for d in &h.led.inputs {
            if let Ok(p) = wire::parse(d) {
                if let Head::Connect { epk, pk } = &p.head {
                    if h.sh.own_epk != Some(*epk)
                        && h.led.expect.as_ref().map_or(true, |e| e == pk)
                        && wire::verify(pk, p.covered(d), p.trailer(d))
                    {
                        v.push(pk.clone());
                    }
                }
            }
        }
        v
    }
    /// Has one of these keys signed an ACK for this handle's own ephemeral key?
    fn acked(&self, hid: u32, by: &[Vec<u8>]) -> bool {
        let h = &self.hs[&hid];
        let want = match h.sh.own_epk {
            Some(e) => wire::sha256(&e),
            None => return false,
        };
        h.led.inputs.iter().any(|d| match wire::parse(d) {
            Ok(p) => match p.head {
                Head::Ack { challenge } => {
                    challenge == want && by.iter().any(|k| wire::verify(k, p.covered(d), p.trailer(d)))
                }
                _ => false,
            },
            Err(_) => false,
        })
    }

    /// What the handshake datagrams given to a handle prove; nothing is verified twice.
    fn proofs(&mut self, hid: u32) -> (Vec<Vec<u8>>, bool) {
        let (n, own) = match self.hs.get(&hid) {
            Some(h) => (h.led.inputs.len(), usize::from(h.sh.own_epk.is_some())),
            None => return (vec![], false),
        };
        if let Some((m, s, a)) = &self.hs[&hid].led.known {
            if *m == 2 * n + own {
                return (s.clone(), *a);
            }
        }
        let s = self.signers(hid);
        let a = self.acked(hid, &s);
        if let Some(h) = self.hs.get_mut(&hid) {
            h.led.known = Some((2 * n + own, s.clone(), a));
        }
        (s, a)
    }

    // ------------------------------------------------------------ judging

    fn first(&mut self, vs: Vec<Viol>) -> R {
        for v in vs {
            if !self.put_aside(&v) {
                return Err(v);
            }
        }
        Ok(())
    }
    pub fn check_read(
        &mut self,
        op: &'static str,
        hid: u32,
        n: u64,
        exp: Exp,
        before: Shadow,
        got: Called<Result<Vec<Ev>, String>>,
    ) -> R {
        let evs = match &got.r {
            Ok(Ok(e)) => e.clone(),
            _ => vec![],
        };
        let panicked = got.r.as_ref().err().cloned();
        let peak = got.peak;
        if !self.adrift {
            match self.judge_read(op, hid, n, exp, before, got) {
                Ok(()) => {
                    for e in &evs {
                        self.led_event(hid, e);
                    }
                    return Ok(());
                }
                Err(v) => {
                    let was_dead = self.hs.get(&hid).map_or(false, |h| h.led.dead);
                    if !self.put_aside(&v) {
                        return Err(v);
                    }
                    // the model's view of this very step is what is in doubt
                    if let Some(h) = self.hs.get_mut(&hid) {
                        h.led.dead = was_dead;
                    }
                }
            }
        } else {
            let line = format!("{} {} -> {}", op, hid, show_all(&evs));
            self.note(&line);
            self.seen(op.as_bytes()[0], hid, 100 + evs.len().min(3) as u8);
            if self.record {
                let x = match &got.r {
                    Ok(Ok(e)) => format!("{:?}", e),
                    Ok(Err(e)) => e.clone(),
                    Err(p) => p.clone(),
                };
                self.transcript.push(fnv(FNV0, x.as_bytes()));
            }
        }
        let vs = self.apart_read(op, hid, n, &evs, panicked, peak);
        self.last = evs;
        self.resync(hid);
        self.first(vs)
    }
    fn apart_read(&mut self, op: &str, hid: u32, n: u64, evs: &[Ev], panicked: Option<String>, peak: u64) -> Vec<Viol> {
        let mut vs = vec![];
        let kind = match self.hs.get(&hid) {
            Some(h) => h.sh.kind,
            None => return vs,
        };
        if kind.is_ref() {
            for e in evs {
                self.led_event(hid, e);
            }
            return vs;
        }
        let ctx = |d: String| format!("{} on handle {} ({:?}): {}", op, hid, kind, d);
        if let Some(p) = panicked {
            vs.push(viol(&["C07"], &format!("panic/{}", op), ctx(format!("panicked: {}", p))));
        }
        if peak > 4096 * n + (1 << 20) {
            vs.push(viol(&["C07"], "memory", ctx(format!("{} bytes of memory for {} bytes of input", peak, n))));
        }
        if evs.is_empty() {
            return vs;
        }
        let (signers, acked) = self.proofs(hid);
        // a peer that abuses its key sent custom data that cannot be decoded: whether its handshake
        // message counts is left open
        let vague = self.hs[&hid].sh.lenient;
        for ev in evs {
            let d = ctx(show(ev));
            if self.hs[&hid].led.dead {
                vs.push(viol(&["C08"], "apart/alive-after-failure", d.clone()));
            }
            match ev {
                Ev::Connect { pk, .. } => {
                    if self.hs[&hid].led.conn_in > 0 {
                        vs.push(viol(&["C08", "C04"], "apart/second-connect", d.clone()));
                    }
                    if !signers.contains(pk) {
                        vs.push(viol(&["C05"], "apart/unsigned-connect", d.clone()));
                    }
                }
                Ev::Ack { .. } => {
                    // an expected key needs no CONNECT to be known
                    let mut by = signers.clone();
                    by.extend(self.hs[&hid].led.expect.clone());
                    let acked = self.acked(hid, &by);
                    if self.hs[&hid].led.ack_in > 0 {
                        vs.push(viol(&["C08", "C04"], "apart/second-ack", d.clone()));
                    }
                    if !acked {
                        vs.push(viol(&["C05"], "apart/unsigned-ack", d.clone()));
                    }
                }
                Ev::User { data } => {
                    if !vague && !self.hs[&hid].led.up() {
                        vs.push(viol(&["C09"], "apart/user-before-ack", d.clone()));
                    }
                    if !acked {
                        vs.push(viol(&["C05"], "apart/user-without-negotiation", d.clone()));
                    }
                    let (ep, own) = (self.hs[&hid].sh.ep, self.hs[&hid].sh.own_epk);
                    let from: Vec<Wrote> = self
                        .wrote
                        .get(&key(data))
                        .map(|v| {
                            v.iter()
                                .filter(|w| w.ep != ep && (w.peer.is_none() || own.is_none() || w.peer == own))
                                .cloned()
                                .collect()
                        })
                        .unwrap_or_default();
                    let times = self.hs[&hid].led.got.get(&key(data)).copied().unwrap_or(0) as usize + 1;
                    let own_words = self.wrote.get(&key(data)).map_or(false, |v| v.iter().any(|w| w.ep == ep));
                    if from.is_empty() && own_words {
                        vs.push(viol(&["C01"], "own-user-message-accepted", d.clone()));
                    } else if from.is_empty() {
                        vs.push(viol(&["C01"], "apart/never-written", d.clone()));
                    } else if times > from.len() {
                        vs.push(viol(&["C02"], "apart/delivered-again", d.clone()));
                    }
                    if let [Wrote { ep: we, nonce: Some(k), .. }] = from[..] {
                        if let Some(h) = self.hs.get_mut(&hid) {
                            if !h.led.nonces.insert((we, k)) && times == 1 {
                                vs.push(viol(&["C02"], "apart/number-used-twice", d.clone()));
                            }
                        }
                    }
                }
            }
            self.led_event(hid, ev);
        }
        vs
    }

    pub fn check_write(
        &mut self,
        op: &'static str,
        hid: u32,
        dg: u32,
        io: &Option<Io>,
        exp: Result<(), Why>,
        before: &Shadow,
        got: Called<WriteOut>,
        kind: DgKind,
        pay: Option<Pay>,
    ) -> R {
        let copy: Result<(bool, bool, Vec<u8>), String> = match &got.r {
            Ok(o) => Ok((o.res.is_ok() && o.flush.is_ok(), o.hard, if self.goal.is_some() { o.sink.clone() } else { vec![] })),
            Err(p) => Err(p.clone()),
        };
        let told = matches!(&got.r, Ok(o) if o.res.is_err());
        if !self.adrift {
            match self.judge_write(op, hid, dg, io, exp, before, got, kind, pay) {
                Ok(()) => {
                    if self.last_emitted {
                        self.led_sent(hid, kind, before.next_out, pay);
                    }
                    return Ok(());
                }
                Err(v) => {
                    let was_dead = self.hs.get(&hid).map_or(false, |h| h.led.dead);
                    if !self.put_aside(&v) {
                        return Err(v);
                    }
                    if let Some(h) = self.hs.get_mut(&hid) {
                        h.led.dead = was_dead;
                    }
                }
            }
        } else if let Ok((ok, _, sink)) = &copy {
            self.note(&format!("{} {} -> {} ({} bytes)", op, hid, if *ok { "ok" } else { "refused" }, sink.len()));
            self.trace = fnv(self.trace, sink);
            self.seen(op.as_bytes()[0], hid, 100 + u8::from(*ok));
            if self.record {
                self.transcript.push(fnv(FNV0, sink));
                self.emits.push((dg, *ok, sink.clone()));
            }
        }
        let vs = self.apart_write(op, hid, dg, copy, told, kind, pay);
        self.resync(hid);
        self.first(vs)
    }
    fn led_sent(&mut self, hid: u32, kind: DgKind, nonce: u64, pay: Option<Pay>) {
        let (ep, own, peer, mode) = match self.hs.get_mut(&hid) {
            Some(h) => {
                match kind {
                    DgKind::Connect => h.led.conn_out += 1,
                    DgKind::Ack => h.led.ack_out += 1,
                    _ => {}
                }
                (h.sh.ep, h.sh.own_epk, h.sh.peer_epk, h.sh.kind.mode())
            }
            None => return,
        };
        if kind == DgKind::User {
            if let Some(p) = pay {
                let nonce = if self.adrift { None } else { Some(nonce) };
                self.led_wrote(ep, own, peer, nonce, &p.logical(mode));
            }
        }
    }
    fn apart_write(
        &mut self,
        op: &str,
        hid: u32,
        dg: u32,
        out: Result<(bool, bool, Vec<u8>), String>,
        told: bool,
        kind: DgKind,
        pay: Option<Pay>,
    ) -> Vec<Viol> {
        let mut vs = vec![];
        self.last_emitted = false;
        let (sh, led) = match self.hs.get_mut(&hid) {
            Some(h) => (h.sh.brief(), h.led.brief()),
            None => return vs,
        };
        let vague = sh.lenient;
        let is_ref = sh.kind.is_ref();
        let ctx = |d: String| format!("{} on handle {} ({:?}): {}", op, hid, sh.kind, d);
        let (ok, hard, bytes) = match out {
            Ok(x) => x,
            Err(p) => {
                vs.push(viol(&["C07"], &format!("panic/{}", op), ctx(format!("panicked: {}", p))));
                return vs;
            }
        };
        if ok && hard {
            vs.push(viol(&["C10"], "swallowed", ctx("the writer failed and the call reported success".into())));
        }
        if !is_ref && led.dead && !bytes.is_empty() {
            vs.push(viol(&["C08"], "apart/alive-after-failure", ctx(short(&bytes))));
        }
        if kind == DgKind::User && sh.format_ok(Some(&pay.unwrap_or(NO_PAY))) && told && (hard || (!vague && !led.up())) {
            if let Some(h) = self.hs.get_mut(&hid) {
                h.led.dead = true;
            }
        }
        if !ok || bytes.is_empty() {
            return vs;
        }
        let d = ctx(short(&bytes));
        if !is_ref {
            match kind {
                DgKind::Connect if !vague && led.conn_out > 0 => vs.push(viol(&["C09"], "apart/second-connect-sent", d)),
                DgKind::Ack if !vague && led.ack_out > 0 => vs.push(viol(&["C09"], "apart/second-ack-sent", d)),
                DgKind::Ack if !vague && led.conn_in == 0 => vs.push(viol(&["C09"], "apart/ack-before-connect", d)),
                DgKind::User => {
                    if !vague && !led.up() {
                        vs.push(viol(&["C09"], "apart/user-sent-before-negotiation", d.clone()));
                    }
                    if !self.proofs(hid).1 {
                        vs.push(viol(&["C05"], "apart/user-sent-without-negotiation", d.clone()));
                    }
                    if wire::parse(&bytes).is_ok() || (bytes.len() >= 4 && bytes[..4] == wire::MAGIC) {
                        vs.push(viol(&["C12", "C13"], "clear-user-message", d.clone()));
                    }
                    if let Some(p) = pay {
                        if p.len >= 16 && (p.style == 0 || p.style == 4) {
                            let raw = if sh.kind.mode() == Mode::Ser { p.logical(Mode::Ser) } else { p.bytes() };
                            let lim = bytes.len().min(6000);
                            for at in [0usize, raw.len() / 2, raw.len().saturating_sub(12)] {
                                if at + 12 <= raw.len() && find(&bytes[..lim], &raw[at..at + 12]) {
                                    vs.push(viol(&["C12"], "plaintext-on-wire", d.clone()));
                                    break;
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        // it is on the wire
        let own = sh.own_epk.unwrap_or([0; 32]);
        match kind {
            DgKind::Connect => {
                if let Ok(p) = wire::parse(&bytes) {
                    if let Head::Connect { epk, pk } = p.head {
                        self.ep_pk.insert(sh.ep, pk);
                        self.ep_epk.insert(sh.ep, epk);
                        self.epks.insert(epk, sh.ep);
                        if let Some(h) = self.hs.get_mut(&hid) {
                            h.sh.own_epk = Some(epk);
                        }
                    }
                }
                self.reg.clear.insert(bytes.clone(), pay.map(|p| p.logical(sh.kind.mode())));
            }
            DgKind::Ack => {
                self.reg.clear.insert(bytes.clone(), pay.map(|p| p.logical(sh.kind.mode())));
            }
            _ => {
                let s = sess(own, sh.peer_epk.unwrap_or([0; 32]));
                let data = pay.map_or(vec![], |p| p.logical(sh.kind.mode()));
                self.reg.cipher.entry(bytes.clone()).or_default().push(CMeta {
                    sess: s,
                    ep: sh.ep,
                    body: CBody::Written { nonce: sh.next_out, data },
                });
                self.wire_users.push((s, dg));
                if let Some(h) = self.hs.get_mut(&hid) {
                    h.sh.next_out += 1;
                }
            }
        }
        self.led_sent(hid, kind, 0, pay);
        self.dgs.insert(dg, Dg { bytes, kind, ep: sh.ep });
        self.last_emitted = true;
        vs
    }
    pub fn apart_clone(&mut self, from: u32, ok: bool) -> R {
        let (led, kind) = match self.hs.get(&from) {
            Some(h) => (h.led.brief(), h.sh.kind),
            None => return Ok(()),
        };
        if !ok || kind.is_ref() {
            return Ok(());
        }
        let d = format!("try_clone of handle {}", from);
        let mut vs = vec![];
        if led.dead {
            vs.push(viol(&["C08"], "apart/cloned-after-failure", d.clone()));
        }
        if !self.hs[&from].sh.lenient && !led.up() {
            vs.push(viol(&["C09"], "apart/cloned-before-negotiation", d.clone()));
        }
        if !self.proofs(from).1 {
            vs.push(viol(&["C05"], "apart/cloned-without-negotiation", d));
        }
        self.first(vs)
    }
    /// Bring the model's state near to what was observed, so that the rest of the run makes sense.
    fn resync(&mut self, hid: u32) {
        let alive = self.last_emitted || !self.last.is_empty();
        let h = match self.hs.get_mut(&hid) {
            Some(h) if !h.sh.kind.is_ref() && !h.sh.lenient => h,
            _ => return,
        };
        if alive {
            h.sh.fail = None;
        }
        h.sh.local = if h.led.ack_in > 0 {
            Local::Acked
        } else if h.led.conn_out > 0 {
            Local::Sent
        } else {
            Local::Created
        };
        h.sh.remote = if h.led.ack_out > 0 {
            Remote::AckSent
        } else if h.led.conn_in > 0 {
            Remote::Got
        } else {
            Remote::Wait
        };
        h.sh.est = h.led.up();
        if h.led.conn_in > 0 && h.sh.peer_epk.is_none() {
            let own = h.sh.own_epk;
            h.sh.peer_epk = h.led.inputs.iter().rev().find_map(|d| match wire::parse(d).ok()?.head {
                Head::Connect { epk, .. } if Some(epk) != own => Some(epk),
                _ => None,
            });
        }
    }
}

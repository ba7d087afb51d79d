//! Executes steps against real endpoints, compares everything they do with the model, and names
//! what broke.

use crate::apart::{Led, Wrote};
use crate::node::{open_writer, Buf, Ev, Node, WriteOut};
use crate::os;
use crate::refend::{decode_body, deflate, encode_body, ill_compressed};
use crate::rng::{fnv, mix, Rng, FNV0};
use crate::shadow::*;
use crate::types::*;
use crate::wire::{self, Head};
use std::cell::RefCell;
use std::io::Write as _;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: Vec<&'static str>,
    pub class: String,
    pub detail: String,
}
pub type R = Result<(), Viol>;

pub fn viol(tags: &[&'static str], class: &str, detail: String) -> Viol {
    let mut t: Vec<&'static str> = tags.to_vec();
    t.sort_unstable();
    t.dedup();
    Viol { tags: t, class: class.to_string(), detail }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}

pub struct Called<T> {
    /// Err: the panic message
    pub r: Result<T, String>,
    pub peak: u64,
    pub served: u64,
    pub fired: [u32; 8],
}
/// Run code under test: simulated entropy, allocation measured, panics caught.
pub fn call<T>(ent: u64, script: &[u8], flip: Option<(u64, u8)>, f: impl FnOnce() -> T) -> Called<T> {
    os::beat();
    os::entropy_begin(ent, script);
    if let Some((p, b)) = flip {
        os::entropy_flip(p, b);
    }
    let (r, peak) = os::measured(|| catch_unwind(AssertUnwindSafe(f)));
    let (served, fired) = os::entropy_end();
    Called {
        r: r.map_err(|_| PANIC.with(|p| p.borrow().clone())),
        peak,
        served,
        fired,
    }
}

pub struct H {
    pub node: Node,
    pub sh: Shadow,
    pub id: u8,
    pub ops: u64,
    pub held_bytes: u64,
    pub led: Led,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DgKind {
    Connect,
    Ack,
    User,
    Craft,
}
pub struct Dg {
    pub bytes: Vec<u8>,
    pub kind: DgKind,
    /// endpoint that emitted it; u32::MAX: nobody
    pub ep: u32,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub c: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.c.entry(k).or_insert(0) += n;
        }
    }
}

pub struct Sim {
    pub seed: u64,
    pub hs: BTreeMap<u32, H>,
    pub dgs: BTreeMap<u32, Dg>,
    pub reg: Reg,
    pub ep_epk: BTreeMap<u32, [u8; 32]>,
    pub ep_pk: BTreeMap<u32, Vec<u8>>,
    pub epks: BTreeMap<[u8; 32], u32>,
    pub secrets: BTreeMap<Sess, [u8; 48]>,
    pub stats: Stats,
    pub states: BTreeSet<u64>,
    pub trace: u64,
    pub shape: u64,
    pub steps: u64,
    pub soft: Vec<Viol>,
    /// events of the last read-like step, for the driver
    pub last: Vec<Ev>,
    pub last_emitted: bool,
    /// datagrams of the last batch that left completely
    pub batch_sent: Vec<u32>,
    pub record: bool,
    pub emits: Vec<(u32, bool, Vec<u8>)>,
    pub transcript: Vec<u64>,
    pub log: Option<Vec<String>>,
    /// user datagrams on the wire: (session, datagram), plaintext known
    pub wire_users: Vec<(Sess, u32)>,
    pub payloads: Vec<Vec<u8>>,
    /// the property whose check this run belongs to
    pub goal: Option<&'static str>,
    /// another property was broken on the way: the model and the endpoints have parted
    pub adrift: bool,
    pub wrote: Map<u64, Vec<Wrote>>,
    /// calls are made from several OS threads in turn
    pub hop: bool,
    /// type of the serialised messages
    pub app: u8,
    /// private keys of the endpoints the simulator plays, by public key
    pub ref_keys: BTreeMap<[u8; 32], [u8; 32]>,
    /// heap blocks with a copy of the session key in them, by endpoint
    pub kept: BTreeMap<u32, Vec<usize>>,
}

pub fn short(b: &[u8]) -> String {
    let n = b.len().min(24);
    let mut s = String::new();
    for x in &b[..n] {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > n {
        s.push_str("..");
    }
    format!("{}({}B)", s, b.len())
}
pub fn show(e: &Ev) -> String {
    match e {
        Ev::Connect { pk, custom } => format!(
            "CONNECT[{} custom={}]",
            short(&pk[..pk.len().min(4)]),
            custom.as_ref().map_or("none".into(), |c| short(c))
        ),
        Ev::Ack { custom } => {
            format!("ACK[custom={}]", custom.as_ref().map_or("none".into(), |c| short(c)))
        }
        Ev::User { data } => format!("USER[{}]", short(data)),
    }
}
pub fn show_all(e: &[Ev]) -> String {
    if e.len() > 6 {
        format!("{} .. ({} events)", show(&e[0]), e.len())
    } else {
        format!("[{}]", e.iter().map(show).collect::<Vec<_>>().join(", "))
    }
}

impl Sim {
    pub fn new(seed: u64) -> Sim {
        Sim {
            seed,
            hs: BTreeMap::new(),
            dgs: BTreeMap::new(),
            reg: Reg::default(),
            ep_epk: BTreeMap::new(),
            ep_pk: BTreeMap::new(),
            epks: BTreeMap::new(),
            secrets: BTreeMap::new(),
            stats: Stats::default(),
            states: BTreeSet::new(),
            trace: FNV0,
            shape: FNV0,
            steps: 0,
            soft: vec![],
            last: vec![],
            last_emitted: false,
            batch_sent: vec![],
            record: false,
            emits: vec![],
            transcript: vec![],
            log: None,
            wire_users: vec![],
            payloads: vec![],
            goal: None,
            adrift: false,
            wrote: Map::default(),
            hop: false,
            app: shape_of(seed),
            ref_keys: BTreeMap::new(),
            kept: BTreeMap::new(),
        }
    }
    pub fn note(&mut self, what: &str) {
        self.trace = fnv(self.trace, what.as_bytes());
        if let Some(l) = &mut self.log {
            l.push(what.to_string());
        }
    }
    pub fn seen(&mut self, code: u8, h: u32, outcome: u8) {
        self.shape = fnv(self.shape, &[code, h as u8, outcome]);
    }

    // ---------------------------------------------------------- naming

    fn tags_missing(&self, sh: &Shadow, what: &Ev) -> Vec<&'static str> {
        let mut t: Vec<&'static str> = match what {
            Ev::User { .. } => vec!["C03"],
            _ => vec!["C04"],
        };
        if sh.refused_handshakes > 0 {
            t.push("C06");
        }
        if sh.refused_calls > 0 {
            t.push("C09");
        }
        if sh.io_faults > 0 || self.peer_has(sh, |s| s.io_faults > 0) {
            t.push("C10");
        }
        if sh.ent_faults || self.peer_has(sh, |s| s.ent_faults) {
            t.push("C16");
        }
        if self.any_ref() {
            t.push("C13");
        }
        if sh.kind.mode() != Mode::Raw {
            t.push("C11");
        }
        if let Ev::User { .. } = what {
            // never was a message exchanged in this direction
            if sh.delivered_users == 0 && !sh.clone {
                t.push("C04");
            }
            if sh.clone || sh.cloned || self.peer_has(sh, |s| s.clone || s.cloned) {
                t.push("C14");
            }
            if sh.max_orphans > 0 {
                t.push("C15");
            }
            if sh.dropped_sibling || self.peer_has(sh, |s| s.dropped_sibling) {
                t.push("C17");
            }
            if sh.early_dups > 0 {
                t.push("C02");
            }
        }
        t
    }
    fn peer_has(&self, sh: &Shadow, f: impl Fn(&Shadow) -> bool) -> bool {
        let s = sh.sess();
        s.is_some() && self.hs.values().any(|h| h.sh.ep != sh.ep && h.sh.sess() == s && f(&h.sh))
    }
    fn any_ref(&self) -> bool {
        self.hs.values().any(|h| h.sh.kind.is_ref())
    }
    fn tags_accepted(w: Why, sh: &Shadow, ev: &Ev) -> Vec<&'static str> {
        let user = matches!(ev, Ev::User { .. });
        let mut t = match w {
            Why::AlreadyFailed => {
                let mut t = vec!["C08"];
                match sh.fail {
                    Some(Why::Window) => t.push("C15"),
                    Some(Why::UserTooEarly) | Some(Why::CallNotEst) => t.push("C09"),
                    _ => {}
                }
                t
            }
            Why::Replay => vec!["C02"],
            Why::Undecryptable | Why::NoKey if user => vec!["C01"],
            Why::CrossSession if user => vec!["C01", "C12"],
            Why::ClearUser if user => vec!["C01", "C12", "C13"],
            Why::BadHash => vec!["C01", "C13"],
            Why::UserTooEarly => vec!["C09"],
            Why::WrongIdentity | Why::BadSig | Why::BadChallenge | Why::OwnConnect => vec!["C05"],
            Why::SigLen => vec!["C05", "C13"],
            Why::LowOrder => vec!["C05", "C08"],
            Why::DupConnect | Why::DupAck => vec!["C08", "C09"],
            Why::EarlyAckTwice => vec!["C08"],
            Why::Window => vec!["C15", "C08"],
            Why::Malformed | Why::EncHandshake => {
                if user {
                    vec!["C13", "C01"]
                } else {
                    vec!["C13", "C05"]
                }
            }
            Why::BodyCodec => vec!["C01", "C11"],
            _ => vec!["C01", "C05", "C09"],
        };
        if w == Why::Replay && (sh.clone || sh.cloned) {
            t.push("C14");
        }
        t
    }

    // ---------------------------------------------------------- reads

    fn leave_open(&mut self, hid: u32) {
        if let Some(h) = self.hs.get_mut(&hid) {
            h.sh.lenient = true;
        }
    }
    pub fn judge_read(
        &mut self,
        op: &'static str,
        hid: u32,
        n: u64,
        exp: Exp,
        before: Shadow,
        got: Called<Result<Vec<Ev>, String>>,
    ) -> R {
        let sh = match self.hs.get_mut(&hid) {
            Some(h) => h.sh.brief(),
            None => return Ok(()),
        };
        let is_ref = sh.kind.is_ref();
        let ctx = |d: String| format!("{} on handle {} ({:?}): {}", op, hid, sh.kind, d);
        let r = match got.r {
            Err(p) => {
                let mut t = vec!["C07"];
                match &exp {
                    Exp::Events(evs) if !evs.is_empty() => t.extend(self.tags_missing(&before, &evs[0])),
                    Exp::Reject(Why::AlreadyFailed) => t.push("C08"),
                    Exp::Reject(Why::Malformed) | Exp::Reject(Why::EncHandshake) => t.push("C13"),
                    Exp::Reject(Why::Window) => t.push("C15"),
                    Exp::Reject(Why::Replay) => t.push("C02"),
                    Exp::Reject(Why::LowOrder) => t.push("C08"),
                    _ => {}
                }
                return Err(viol(&t, &format!("panic/{}", op), ctx(format!("panicked: {}", p))));
            }
            Ok(r) => r,
        };
        if !is_ref {
            let bound = 4096 * n + (1 << 20);
            self.stats.c.entry("peak_bytes_max").and_modify(|v| *v = (*v).max(got.peak)).or_insert(got.peak);
            if got.peak > bound {
                return Err(viol(
                    &["C07"],
                    "memory",
                    ctx(format!("{} bytes of memory for {} bytes of input", got.peak, n)),
                ));
            }
        }
        let line = match &r {
            Ok(e) => format!("{} {} -> {}", op, hid, show_all(e)),
            Err(e) => format!("{} {} -> refused ({})", op, hid, e),
        };
        self.note(&line);
        if self.record {
            let x = match &r {
                Ok(e) => format!("{:?}", e),
                Err(e) => e.clone(),
            };
            self.transcript.push(fnv(FNV0, x.as_bytes()));
        }
        let code = match (&exp, &r) {
            (Exp::Events(e), _) => e.len().min(3) as u8,
            (Exp::Reject(w), _) => 16 + *w as u8,
        };
        self.seen(op.as_bytes()[0], hid, code);
        match (exp, r) {
            (Exp::Events(e), Ok(g)) => {
                self.last = g.clone();
                if e == g {
                    return Ok(());
                }
                if sh.odd > before.odd {
                    self.leave_open(hid);
                    return Ok(());
                }
                if sh.lenient && g.is_empty() {
                    return Ok(());
                }
                let d = ctx(format!("expected {}, got {}", show_all(&e), show_all(&g)));
                if g.len() < e.len() && e.iter().zip(&g).all(|(a, b)| a == b) {
                    let t = self.tags_missing(&before, &e[g.len()]);
                    return Err(viol(&t, "missing", d));
                }
                if g.len() > e.len() && e.iter().zip(&g).all(|(a, b)| a == b) {
                    let t = match &g[e.len()] {
                        Ev::User { .. } if !sh.est => vec!["C09"],
                        Ev::User { data } => {
                            if e.contains(&Ev::User { data: data.clone() }) {
                                vec!["C02"]
                            } else {
                                vec!["C01", "C02"]
                            }
                        }
                        Ev::Ack { .. } => vec!["C05", "C04"],
                        Ev::Connect { .. } => vec!["C05", "C04"],
                    };
                    return Err(viol(&t, "extra", d));
                }
                // same multiset in another order?
                let mut es: Vec<String> = e.iter().map(|x| format!("{:?}", x)).collect();
                let mut gs: Vec<String> = g.iter().map(|x| format!("{:?}", x)).collect();
                es.sort();
                gs.sort();
                if es == gs {
                    let t = if e.iter().all(|x| matches!(x, Ev::User { .. } | Ev::Ack { .. })) {
                        vec!["C03"]
                    } else {
                        vec!["C04"]
                    };
                    return Err(viol(&t, "order", d));
                }
                let mut gd = gs.clone();
                gd.dedup();
                let mut t = vec![];
                if gd.len() < gs.len() && !es.windows(2).any(|w| w[0] == w[1]) {
                    t.push("C02");
                }
                for (i, x) in e.iter().enumerate() {
                    match (x, g.get(i)) {
                        (Ev::User { .. }, Some(Ev::User { data })) => {
                            if g[i] != *x {
                                t.extend(["C01", "C03", "C11"]);
                                if data.is_empty() {
                                    t.push("C03");
                                }
                                if sh.clone || sh.cloned {
                                    t.push("C14");
                                }
                                if self.any_ref() {
                                    t.push("C13");
                                }
                                if sh.io_faults > 0 || self.peer_has(&sh, |s| s.io_faults > 0) {
                                    t.push("C10");
                                }
                            }
                        }
                        (Ev::Connect { pk, custom }, Some(Ev::Connect { pk: p2, custom: c2 })) => {
                            if pk != p2 {
                                t.extend(["C05", "C04"]);
                            }
                            if custom != c2 {
                                t.extend(["C11", "C04"]);
                                if self.any_ref() {
                                    t.push("C13");
                                }
                            }
                        }
                        (Ev::Ack { custom }, Some(Ev::Ack { custom: c2 })) => {
                            if custom != c2 {
                                t.extend(["C11", "C04"]);
                                if self.any_ref() {
                                    t.push("C13");
                                }
                            }
                        }
                        (x, Some(y)) => {
                            if x != y {
                                t.extend(self.tags_missing(&before, x));
                            }
                        }
                        (x, None) => t.extend(self.tags_missing(&before, x)),
                    }
                }
                if t.is_empty() {
                    t.push("C01");
                }
                Err(viol(&t, "content", d))
            }
            (Exp::Events(e), Err(err)) => {
                self.last.clear();
                if sh.odd > before.odd {
                    self.leave_open(hid);
                    return Ok(());
                }
                if sh.lenient {
                    return Ok(());
                }
                let d = ctx(format!("expected {}, got refused ({})", show_all(&e), err));
                if e.is_empty() {
                    if op == "take" || op == "drain" {
                        return Err(viol(&["C03", "C04"], "refused-nothing", d));
                    }
                    // a message that must be set aside
                    let user = sh.early_n > before.early_n;
                    let t = self.tags_missing(
                        &before,
                        &if user { Ev::User { data: vec![] } } else { Ev::Ack { custom: None } },
                    );
                    return Err(viol(&t, "not-kept", d));
                }
                let mut t = vec![];
                for x in &e {
                    t.extend(self.tags_missing(&before, x));
                }
                Err(viol(&t, "refused", d))
            }
            (Exp::Reject(w), Ok(g)) => {
                self.last = g.clone();
                if g.is_empty() {
                    return Ok(());
                }
                // the peer abuses its own key and the layer tells part of what it accepted: no claim
                if w == Why::BodyCodec {
                    return Ok(());
                }
                if w == Why::Reflected {
                    return Err(viol(
                        &["C01"],
                        "own-user-message-accepted",
                        ctx(format!("delivered its own message {}", show_all(&g))),
                    ));
                }
                let mut t = vec![];
                for x in &g {
                    t.extend(Self::tags_accepted(w, &sh, x));
                }
                Err(viol(
                    &t,
                    &format!("accepted/{:?}", w),
                    ctx(format!("must be refused ({:?}) but gave {}", w, show_all(&g))),
                ))
            }
            (Exp::Reject(_), Err(_)) => {
                self.last.clear();
                Ok(())
            }
        }
    }

    fn deliver(&mut self, hid: u32, bytes: &[u8], op: &'static str) -> R {
        let seed = self.seed;
        let (exp, before, got, n) = {
            let h = match self.hs.get_mut(&hid) {
                Some(h) => h,
                None => return Ok(()),
            };
            let before = h.sh.brief();
            let early = h.sh.early.len();
            let exp = h.sh.read(&self.reg, bytes);
            if h.sh.kind.is_ref() && exp == Exp::Reject(Why::Reflected) {
                // what the reference peer makes of its own messages says nothing about the layers
                return Ok(());
            }
            h.ops += 1;
            let ent = mix(&[seed, 77, u64::from(hid), h.ops]);
            if h.sh.early.len() > early || h.sh.held_ack.is_some() != before.held_ack.is_some() {
                h.held_bytes += bytes.len() as u64;
            }
            let n = bytes.len() as u64 + h.held_bytes;
            let watch = key_of(&self.secrets, &self.ref_keys, self.goal, &h.sh);
            let node = &mut h.node;
            let got = keyed(&watch, || call(ent, &[], None, || node.read(bytes)));
            (exp, before, got, n)
        };
        self.key_after(hid, op, None)?;
        match &exp {
            Exp::Events(e) => {
                self.stats.add("events_expected", e.len() as u64);
                if e.is_empty() {
                    self.stats.add("set_aside", 1);
                }
            }
            Exp::Reject(w) => self.stats.add(why_name(*w), 1),
        }
        self.led_input(hid, bytes);
        self.check_read(op, hid, n, exp, before, got)?;
        self.after(hid);
        Ok(())
    }
    pub fn after(&mut self, hid: u32) {
        if let Some(h) = self.hs.get(&hid) {
            self.states.insert(h.sh.fingerprint());
            if let (Node::Ref(r), Some(s)) = (&h.node, h.sh.sess()) {
                if let Some(k) = r.secret {
                    self.secrets.insert(s, k);
                }
            }
        }
    }

    // ---------------------------------------------------------- emissions

    pub fn judge_write(
        &mut self,
        op: &'static str,
        hid: u32,
        dg: u32,
        io: &Option<Io>,
        exp: Result<(), Why>,
        before: &Shadow,
        got: Called<WriteOut>,
        kind: DgKind,
        pay: Option<Pay>,
    ) -> R {
        self.last_emitted = false;
        let sh = match self.hs.get_mut(&hid) {
            Some(h) => h.sh.brief(),
            None => return Ok(()),
        };
        let ctx = |d: String| format!("{} on handle {} ({:?}): {}", op, hid, sh.kind, d);
        let out = match got.r {
            Err(p) => {
                let mut t = vec!["C07"];
                match exp {
                    Err(Why::AlreadyFailed) => t.push("C08"),
                    Err(Why::CallFormat) => t.push("C11"),
                    Err(_) => t.push("C09"),
                    Ok(()) => {
                        t.push(if kind == DgKind::User { "C11" } else { "C04" });
                        if io.is_some() {
                            t.push("C10");
                        }
                    }
                }
                return Err(viol(&t, &format!("panic/{}", op), ctx(format!("panicked: {}", p))));
            }
            Ok(o) => o,
        };
        for (i, n) in out.fired.iter().enumerate() {
            self.stats.add(IO_NAMES[i], u64::from(*n));
        }
        let faulted = out.fired.iter().any(|n| *n > 0);
        let ok = out.res.is_ok() && out.flush.is_ok();
        let line = format!(
            "{} {} -> {}{} ({} bytes)",
            op,
            hid,
            match (&out.res, &out.flush) {
                (Ok(()), Ok(())) => "ok".to_string(),
                (Err(e), _) => format!("refused ({})", e),
                (_, Err(e)) => format!("flush failed ({})", e),
            },
            if out.hard { " [writer failed]" } else { "" },
            out.sink.len()
        );
        self.note(&line);
        self.trace = fnv(self.trace, &out.sink);
        if self.record {
            self.transcript.push(fnv(fnv(FNV0, format!("{:?}", out.res).as_bytes()), &out.sink));
            self.emits.push((dg, ok, out.sink.clone()));
        }
        self.seen(op.as_bytes()[0], hid, match exp {
            Ok(()) => u8::from(ok),
            Err(w) => 16 + w as u8,
        });
        if let Err(w) = exp {
            if let Some(h) = self.hs.get_mut(&hid) {
                let _ = &h;
            }
            if out.res.is_ok() || !out.sink.is_empty() {
                let mut t = match w {
                    Why::AlreadyFailed => vec!["C08"],
                    Why::CallFormat => vec!["C11"],
                    _ => vec!["C09"],
                };
                if w == Why::CallNotEst {
                    t.push("C05");
                    t.push("C08");
                }
                if w == Why::AlreadyFailed && sh.fail == Some(Why::CallNotEst) {
                    t.push("C09");
                }
                if w == Why::AlreadyFailed && matches!(sh.fail, Some(Why::LowOrder)) {
                    t.push("C05");
                }
                return Err(viol(
                    &t,
                    &format!("emitted/{:?}", w),
                    ctx(format!("must be refused ({:?}) and emit nothing, {}", w, line)),
                ));
            }
            return Ok(());
        }
        // an emission is due
        if faulted {
            if let Some(h) = self.hs.get_mut(&hid) {
                h.sh.io_faults += 1;
            }
        }
        if !ok {
            if !out.hard && !sh.lenient {
                let mut t: Vec<&'static str> = vec![if kind == DgKind::User { "C03" } else { "C04" }, "C09"];
                if before.next_out == 0 {
                    t.push("C04");
                }
                if faulted || io.is_some() {
                    t.push("C10");
                }
                if sh.clone || sh.cloned {
                    t.push("C14");
                }
                if sh.kind.mode() != Mode::Raw {
                    t.push("C11");
                }
                if self.any_ref() {
                    t.push("C13");
                }
                if sh.refused_handshakes > 0 {
                    t.push("C06");
                }
                if sh.dropped_sibling {
                    t.push("C17");
                }
                return Err(viol(&t, "write-refused", ctx(format!("must succeed, {}", line))));
            }
            // the writer failed and the caller was told
            if let Some(h) = self.hs.get_mut(&hid) {
                if out.res.is_err() {
                    if kind == DgKind::User {
                        h.sh.fail = Some(Why::WriteFailed);
                        self.stats.add("failed_user_writes", 1);
                    } else {
                        h.sh.lenient = true;
                    }
                } else if kind == DgKind::User {
                    h.sh.next_out += 1;
                }
            }
            // what reached the writer can at most be the beginning of the message
            if kind != DgKind::User && !out.sink.is_empty() {
                let want = self.handshake_prefix(hid, kind);
                let n = want.len().min(out.sink.len()).min(16);
                if out.sink[..n.min(8)] != want[..n.min(8)] {
                    return Err(viol(&["C10"], "prefix", ctx(format!("writer got {}", short(&out.sink)))));
                }
            }
            return Ok(());
        }
        // ok: exactly one complete message must be there
        let bytes = out.sink;
        let io_tag: &[&'static str] = if io.is_some() { &["C10"] } else { &[] };
        let mk = |tags: &[&'static str], class: &str, d: String| {
            let mut t = tags.to_vec();
            t.extend_from_slice(io_tag);
            Err(viol(&t, class, format!("{} on handle {} ({:?}): {}", op, hid, sh.kind, d)))
        };
        if before.lenient && bytes.is_empty() {
            return Ok(());
        }
        match kind {
            DgKind::Connect | DgKind::Ack => {
                let p = match wire::parse(&bytes) {
                    Ok(p) => p,
                    Err(e) => {
                        return mk(&["C13", "C10", "C04"], "layout", format!("{}: {}", e, short(&bytes)))
                    }
                };
                let h = match self.hs.get_mut(&hid) {
                    Some(h) => h,
                    None => return Ok(()),
                };
                let ep = h.sh.ep;
                match (&p.head, kind) {
                    (Head::Connect { epk, pk }, DgKind::Connect) => {
                        if h.id != 255 && *pk != wire::id_pk(h.id) {
                            return mk(&["C13", "C04", "C05"], "layout", "CONNECT carries another signature key".into());
                        }
                        if let Some(e) = h.sh.own_epk {
                            if e != *epk {
                                return mk(&["C13", "C04"], "layout", "ephemeral key changed".into());
                            }
                        }
                        h.sh.own_epk = Some(*epk);
                        self.ep_pk.insert(ep, pk.clone());
                        self.ep_epk.insert(ep, *epk);
                        if let Some(o) = self.epks.insert(*epk, ep) {
                            if o != ep && !h.sh.kind.is_ref() {
                                return Err(viol(
                                    &["C12", "C16"],
                                    "ephemeral-key-shared",
                                    ctx(format!("same ephemeral key as endpoint {}", o)),
                                ));
                            }
                        }
                        if h.id == 255 && matches!(h.sh.kind, Kind::Bin | Kind::Ser) {
                            if let Some((o, _)) = self.ep_pk.iter().find(|(o, k)| **o != ep && *k == pk) {
                                return Err(viol(
                                    &["C16"],
                                    "identity-shared",
                                    ctx(format!("its generated identity is that of endpoint {}", o)),
                                ));
                            }
                        }
                        if wire::low_order(0) == *epk || epk.iter().all(|b| *b == epk[0]) {
                            return Err(viol(&["C12", "C16"], "ephemeral-key-weak", ctx(short(epk))));
                        }
                        if !wire::verify(pk, p.covered(&bytes), p.trailer(&bytes)) {
                            return mk(&["C13", "C04"], "layout", "signature of CONNECT does not verify".into());
                        }
                    }
                    (Head::Ack { challenge }, DgKind::Ack) => {
                        let want = h.sh.peer_epk.map(|e| wire::sha256(&e));
                        if want != Some(*challenge) {
                            let t: &[&str] = if sh.refused_handshakes > 0 { &["C13", "C04", "C06"] } else { &["C13", "C04"] };
                            return mk(t, "layout", "ACK answers another ephemeral key".into());
                        }
                        let pk = if h.id == 255 { self.ep_pk.get(&ep).cloned() } else { Some(wire::id_pk(h.id)) };
                        if let Some(pk) = pk {
                            if !wire::verify(&pk, p.covered(&bytes), p.trailer(&bytes)) {
                                return mk(&["C13", "C04"], "layout", "signature of ACK does not verify".into());
                            }
                        }
                    }
                    _ => return mk(&["C13", "C04", "C09"], "layout", "wrong message type".into()),
                }
                let mode = sh.kind.mode();
                let body = p.body(&bytes);
                let want = pay.map(|p| p.logical(mode));
                let have = if body.is_empty() {
                    None
                } else {
                    match decode_body(mode, body) {
                        Ok(v) => Some(v),
                        Err(e) => return mk(&["C13", "C11"], "layout", format!("custom data: {}", e)),
                    }
                };
                let norm = |o: Option<Vec<u8>>| if mode == Mode::Raw { Some(o.unwrap_or_default()) } else { o };
                if norm(want.clone()) != norm(have) {
                    return mk(&["C13", "C11"], "layout", "custom data on the wire differ from the application's".into());
                }
                if let (Some(p), false) = (pay, sh.kind.is_ref() || body.is_empty()) {
                    self.stats.add("compressions_judged", 1);
                    if let Some(e) = ill_compressed(mode, &sh.cfg, &p, body.len()) {
                        return Err(viol(&["C11"], "compression", ctx(e)));
                    }
                }
                self.reg.clear.insert(bytes.clone(), want);
            }
            _ => {
                let mode = sh.kind.mode();
                let plain_len = pay.map_or(0, |p| p.len as usize);
                if wire::parse(&bytes).is_ok() || (bytes.len() >= 4 && bytes[..4] == wire::MAGIC) {
                    return mk(&["C12", "C13"], "clear-user-message", short(&bytes));
                }
                if mode == Mode::Raw && bytes.len() != plain_len + 74 {
                    return mk(
                        &["C13", "C10"],
                        "layout",
                        format!("user datagram of {} bytes for {} bytes of data", bytes.len(), plain_len),
                    );
                }
                if bytes.len() < 74 {
                    return mk(&["C13", "C10"], "layout", format!("user datagram of {} bytes", bytes.len()));
                }
                let p = match pay {
                    Some(p) => p,
                    None => return Ok(()),
                };
                let data = p.logical(mode);
                if plain_len >= 16 && (p.style == 0 || p.style == 4) {
                    let raw = if mode == Mode::Ser { data.clone() } else { p.bytes() };
                    let lim = bytes.len().min(6000);
                    for at in [0usize, raw.len() / 2, raw.len().saturating_sub(12)] {
                        if at + 12 <= raw.len() && find(&bytes[..lim], &raw[at..at + 12]) {
                            return mk(&["C12"], "plaintext-on-wire", short(&raw[at..at + 12]));
                        }
                    }
                }
                let s = match sh.sess() {
                    Some(s) => s,
                    None => return Ok(()),
                };
                let nonce = sh.next_out;
                if let Some(k) = self.secrets.get(&s) {
                    match wire::open(k, &bytes) {
                        None => return mk(&["C13"], "layout", "does not decrypt with the documented key".into()),
                        Some(pl) => match wire::parse(&pl) {
                            Err(e) => return mk(&["C13"], "layout", format!("decrypted: {}", e)),
                            Ok(x) => {
                                if wire::sha256(x.covered(&pl)) != x.trailer(&pl) {
                                    return mk(&["C13"], "layout", "hash of the user message".into());
                                }
                                if x.head != (Head::User { nonce }) {
                                    return mk(&["C13", "C03"], "layout", format!("{:?} for message {}", x.head, nonce));
                                }
                                match decode_body(mode, x.body(&pl)) {
                                    Ok(v) if v == data => {}
                                    _ => return mk(&["C13", "C11"], "layout", "content on the wire differs".into()),
                                }
                            }
                        },
                    }
                }
                if !sh.kind.is_ref() {
                    self.stats.add("compressions_judged", 1);
                    if let Some(e) = ill_compressed(mode, &sh.cfg, &p, bytes.len() - 74) {
                        return Err(viol(&["C11"], "compression", ctx(e)));
                    }
                }
                self.reg.cipher.entry(bytes.clone()).or_default().push(CMeta {
                    sess: s,
                    ep: sh.ep,
                    body: CBody::Written { nonce, data },
                });
                self.wire_users.push((s, dg));
                if self.payloads.len() < 64 && plain_len >= 24 && plain_len < 4000 && p.style == 0 && mode != Mode::Ser {
                    self.payloads.push(p.bytes());
                }
                if let Some(h) = self.hs.get_mut(&hid) {
                    h.sh.next_out += 1;
                }
            }
        }
        self.stats.add("datagrams_emitted", 1);
        self.dgs.insert(dg, Dg { bytes, kind, ep: sh.ep });
        self.last_emitted = true;
        Ok(())
    }
    fn handshake_prefix(&self, _hid: u32, _kind: DgKind) -> Vec<u8> {
        let mut v = wire::MAGIC.to_vec();
        v.extend_from_slice(&[0, 0, 0, 1]);
        v
    }

    fn emit(&mut self, op: &'static str, hid: u32, dg: u32, pay: Option<Pay>, io: &Option<Io>, kind: DgKind) -> R {
        let seed = self.seed;
        let (exp, before, got) = {
            let h = match self.hs.get_mut(&hid) {
                Some(h) => h,
                None => return Ok(()),
            };
            // a handshake call on a handle whose earlier handshake write failed is not specified
            if h.sh.lenient && kind != DgKind::User && h.sh.io_faults > 0 {
                return Ok(());
            }
            let before = h.sh.brief();
            // Minimal endpoints hand out handshake messages, they do not write them
            let exp = match kind {
                DgKind::Connect => h.sh.connect(pay.as_ref()),
                DgKind::Ack => h.sh.ack(pay.as_ref()),
                _ => h.sh.write(Some(&pay.unwrap_or(NO_PAY))),
            };
            h.ops += 1;
            let ent = mix(&[seed, 78, u64::from(hid), h.ops]);
            let watch = key_of(&self.secrets, &self.ref_keys, self.goal, &h.sh);
            let node = &mut h.node;
            let got = keyed(&watch, || call(ent, &[], None, || match kind {
                DgKind::Connect => node.connect(&pay, io),
                DgKind::Ack => node.ack(&pay, io),
                _ => match &pay {
                    Some(p) => node.write(p, io),
                    None => node.write(&NO_PAY, io),
                },
            }));
            (exp, before, got)
        };
        self.key_after(hid, op, None)?;
        self.check_write(op, hid, dg, io, exp, &before, got, kind, pay)?;
        self.after(hid);
        Ok(())
    }

    /// Several calls on one buffered writer, as on one connection: the bytes of each message must
    /// follow those of the message before it, and all of them must reach the writer in the end.
    fn batch(&mut self, io: &Option<Io>, items: &[Item]) -> R {
        self.batch_sent.clear();
        self.stats.add("batches", 1);
        let seed = self.seed;
        let (sink, mut bw) = open_writer(io);
        let snapshot = |bw: &Buf| -> (Vec<u8>, bool, [u32; 6]) {
            let s = sink.lock().expect("sink");
            let mut v = s.got.clone();
            v.extend_from_slice(bw.buffer());
            (v, s.hard, s.fired)
        };
        let mut stream: Vec<u8> = vec![];
        let mut fired0 = [0u32; 6];
        // (end of the message in the stream, datagram, position in `emits`)
        let mut ends: Vec<(usize, u32, usize)> = vec![];
        let mut broken = false;
        let c10 = |class: &str, d: String| Err(viol(&["C10"], class, d));
        for it in items {
            let kind = match it.what {
                0 => DgKind::Connect,
                1 => DgKind::Ack,
                _ => DgKind::User,
            };
            let (exp, before, got) = {
                let h = match self.hs.get_mut(&it.h) {
                    Some(h) if !h.sh.kind.is_ref() => h,
                    _ => continue,
                };
                if h.sh.lenient && kind != DgKind::User && h.sh.io_faults > 0 {
                    continue;
                }
                let before = h.sh.brief();
                let exp = match kind {
                    DgKind::Connect => h.sh.connect(it.pay.as_ref()),
                    DgKind::Ack => h.sh.ack(it.pay.as_ref()),
                    _ => h.sh.write(Some(&it.pay.unwrap_or(NO_PAY))),
                };
                h.ops += 1;
                let ent = mix(&[seed, 78, u64::from(it.h), h.ops]);
                let node = &mut h.node;
                let w = &mut bw;
                let got = call(ent, &[], None, || match kind {
                    DgKind::Connect => node.connect_to(&it.pay, w),
                    DgKind::Ack => node.ack_to(&it.pay, w),
                    _ => node.write_to(&it.pay.unwrap_or(NO_PAY), w),
                });
                (exp, before, got)
            };
            let (now, hard, fired) = snapshot(&bw);
            let own: Vec<u8> = if now.len() >= stream.len() && now[..stream.len()] == stream[..] {
                now[stream.len()..].to_vec()
            } else {
                return c10("batch-disorder", format!("{} on handle {}: the bytes of an earlier message changed or moved", it.what, it.h));
            };
            let mut f = [0u32; 6];
            for i in 0..6 {
                f[i] = fired[i] - fired0[i];
            }
            fired0 = fired;
            let Called { r, peak, served, fired: ent_fired } = got;
            let r = r.map(|res| WriteOut { res, flush: Ok(()), sink: own, hard, fired: f });
            let ok = matches!(&r, Ok(o) if o.res.is_ok());
            let op = match kind {
                DgKind::Connect => "connect",
                DgKind::Ack => "ack",
                _ => "write",
            };
            self.check_write(op, it.h, it.dg, io, exp, &before, Called { r, peak, served, fired: ent_fired }, kind, it.pay)?;
            self.after(it.h);
            let emitted = self.last_emitted;
            if ok && hard {
                return c10("swallowed", format!("{} on handle {}: the writer failed and the call reported success", op, it.h));
            }
            stream = now;
            if emitted {
                ends.push((stream.len(), it.dg, self.emits.len().saturating_sub(1)));
            }
            if hard {
                broken = true;
                break;
            }
            if it.flush {
                let r = bw.flush();
                let (now, hard, fired) = snapshot(&bw);
                for i in 0..6 {
                    self.stats.add(IO_NAMES[i], u64::from(fired[i] - fired0[i]));
                }
                fired0 = fired;
                if r.is_ok() == hard || (!hard && now != stream) {
                    return c10("batch-flush", format!("flush after {} on handle {}: {:?}", op, it.h, r.map_err(|e| e.to_string())));
                }
                if hard {
                    broken = true;
                    break;
                }
            }
        }
        if !broken {
            let r = bw.flush();
            let (_, hard, fired) = snapshot(&bw);
            for i in 0..6 {
                self.stats.add(IO_NAMES[i], u64::from(fired[i] - fired0[i]));
            }
            if r.is_ok() == hard {
                return c10("batch-flush", format!("last flush: {:?}", r.map_err(|e| e.to_string())));
            }
        }
        let got = {
            let mut s = sink.lock().expect("sink");
            s.closed = true;
            std::mem::take(&mut s.got)
        };
        drop(bw);
        let n = got.len();
        if n > stream.len() || got[..] != stream[..n] || (!broken && n < stream.len() && !sink.lock().expect("sink").hard) {
            return c10("batch-stream", format!("{} bytes reached the writer, not the {} bytes of the messages in their order", n, stream.len()));
        }
        let mut gone = false;
        for (end, dg, at) in ends {
            if end <= n && !gone {
                self.batch_sent.push(dg);
            } else {
                // it never left: nobody can have seen it
                gone = true;
                self.dgs.remove(&dg);
                if self.record {
                    if let Some(e) = self.emits.get_mut(at) {
                        e.1 = false;
                        e.2.clear();
                    }
                }
            }
        }
        self.note(&format!("batch: {} of {} bytes reached the writer", n, stream.len()));
        self.last_emitted = !self.batch_sent.is_empty();
        Ok(())
    }

    // ---------------------------------------------------------- mutation and crafting

    fn mutate(&self, mut b: Vec<u8>, ms: &[Mut]) -> Vec<u8> {
        for m in ms {
            let n = b.len();
            match *m {
                Mut::Flip(p, bit) => {
                    if n > 0 {
                        b[p as usize % n] ^= 1 << (bit & 7);
                    }
                }
                Mut::Set(p, v) => {
                    if n > 0 {
                        b[p as usize % n] = v;
                    }
                }
                Mut::Cut(l) => b.truncate(l as usize),
                Mut::CutEnd(l) => b.truncate(n.saturating_sub(l as usize)),
                Mut::Extend(seed, l) => {
                    let mut r = Rng::new(seed);
                    for _ in 0..l.min(1 << 20) {
                        b.push(r.next_u64() as u8);
                    }
                }
                Mut::Remove(at, l) => {
                    if n > 0 {
                        let a = at as usize % n;
                        let e = (a + l as usize).min(n);
                        b.drain(a..e);
                    }
                }
                Mut::Insert(at, seed, l) => {
                    let a = if n == 0 { 0 } else { at as usize % (n + 1) };
                    let mut r = Rng::new(seed);
                    let x: Vec<u8> = (0..l.min(1 << 16)).map(|_| r.next_u64() as u8).collect();
                    b.splice(a..a, x);
                }
                Mut::Splice(dg, at) => {
                    if let Some(o) = self.dgs.get(&dg) {
                        let a = at as usize % (n + 1);
                        b.truncate(a);
                        if a < o.bytes.len() {
                            b.extend_from_slice(&o.bytes[a..]);
                        }
                    }
                }
                Mut::Tail(dg, l) => {
                    if let Some(o) = self.dgs.get(&dg) {
                        let l = (l as usize).min(n).min(o.bytes.len());
                        b.truncate(n - l);
                        b.extend_from_slice(&o.bytes[o.bytes.len() - l..]);
                    }
                }
                Mut::U64(p, v) => {
                    if n >= 8 {
                        let a = p as usize % (n - 7);
                        b[a..a + 8].copy_from_slice(&v.to_be_bytes());
                    }
                }
            }
        }
        b
    }
    fn epk_bytes(&self, e: &Epk) -> Vec<u8> {
        match e {
            Epk::Of(ep) => self.ep_epk.get(ep).map_or_else(|| vec![7; 32], |k| k.to_vec()),
            Epk::Own(l) => wire::x25519_public(&wire::x25519_bytes(*l)).to_vec(),
            Epk::Low(n) => wire::low_order(*n).to_vec(),
            Epk::Bytes(s) => {
                let mut r = Rng::new(*s);
                (0..32).map(|_| r.next_u64() as u8).collect()
            }
        }
    }
    fn signature(&self, s: &Signer, m: &[u8]) -> Vec<u8> {
        match s {
            Signer::Id(i) => wire::sign(*i, m),
            Signer::Junk(s) => {
                let mut r = Rng::new(*s);
                (0..64).map(|_| r.next_u64() as u8).collect()
            }
            Signer::Copy(d) => match self.dgs.get(d) {
                Some(o) if o.bytes.len() >= 64 => o.bytes[o.bytes.len() - 64..].to_vec(),
                _ => vec![0; 64],
            },
            Signer::Zero(n) => vec![0; *n as usize],
        }
    }
    fn craft(&mut self, dg: u32, bytes: Vec<u8>) {
        self.stats.add("datagrams_crafted", 1);
        self.dgs.insert(dg, Dg { bytes, kind: DgKind::Craft, ep: u32::MAX });
    }
    fn craft_cipher(&mut self, dg: u32, h: u32, plain: Vec<u8>, written: Option<(u64, Vec<u8>)>) {
        let (k, s, ep) = match self.hs.get(&h) {
            Some(x) => match (&x.node, x.sh.sess()) {
                (Node::Ref(r), Some(s)) => match r.secret {
                    Some(k) => (k, s, x.sh.ep),
                    None => return,
                },
                _ => return,
            },
            None => return,
        };
        let bytes = wire::seal(&k, &plain);
        self.led_crafted(h, &plain);
        let body = match written {
            Some((nonce, data)) => CBody::Written { nonce, data },
            None => CBody::Plain(plain),
        };
        self.reg.cipher.entry(bytes.clone()).or_default().push(CMeta { sess: s, ep, body });
        self.craft(dg, bytes);
    }
    fn body_plain(&self, h: u32, body: &Body) -> Option<(Vec<u8>, Option<(u64, Vec<u8>)>)> {
        let x = self.hs.get(&h)?;
        let (mode, cfg) = (x.sh.kind.mode(), x.sh.cfg);
        Some(match body {
            Body::User { nonce, pay } => {
                let b = encode_body(mode, &cfg, pay).ok()?;
                (wire::user_plain(*nonce, &b), Some((*nonce, pay.logical(mode))))
            }
            Body::UserRaw { nonce, body } => (wire::user_plain(*nonce, body), None),
            Body::Bomb { nonce, n, fmt } => {
                let mut v = vec![0u8; (*n).min(1 << 26) as usize];
                if *fmt > 0 && v.len() > 4 {
                    v[3] = *fmt;
                    for b in v.iter_mut().skip(4) {
                        *b = match *fmt {
                            2 => b'[',
                            3 => 0x9f,
                            _ => 0xff,
                        };
                    }
                }
                let z = deflate(&v, 9);
                (wire::user_plain(*nonce, &z), None)
            }
            Body::BadHash { nonce, pay, how } => {
                let b = encode_body(mode, &cfg, pay).ok()?;
                let mut p = wire::user_plain(*nonce, &b);
                let l = p.len();
                let by = usize::from(*how / 8);
                match how % 8 {
                    0 => p[l - 1] ^= 1,
                    1 => p[l - 32 + by] ^= 0x80,
                    // too long or too short
                    2 | 3 => p.extend_from_within(l - 32..l - 31 + by),
                    4 => p.truncate(l - 1 - by),
                    5 => p.extend(vec![0; 1 + by]),
                    // of something else
                    6 => {
                        let h = wire::sha256(&p[by.min(l - 33)..l - 32]);
                        p[l - 32..].copy_from_slice(&h);
                        p[l - 32] ^= u8::from(by == 0);
                    }
                    _ => {
                        let h = wire::sha256(&p[..l - 33]);
                        p[l - 32..].copy_from_slice(&h);
                    }
                }
                (p, None)
            }
            Body::BadLen { nonce, pay, len } => {
                let b = encode_body(mode, &cfg, pay).ok()?;
                let mut p = wire::user_plain(*nonce, &b);
                p[8..16].copy_from_slice(&len.to_be_bytes());
                if *len < (p.len() - 48) as u64 {
                    // the hash is where such a message would have it
                    p.truncate(16 + *len as usize + 32);
                }
                let l = p.len();
                let hsh = wire::sha256(&p[..l - 32]);
                p[l - 32..].copy_from_slice(&hsh);
                (p, None)
            }
            Body::Twist { nonce, pay, at, to } => {
                let b = encode_body(mode, &cfg, pay).ok()?;
                let mut p = wire::user_plain(*nonce, &b);
                let l = p.len() - 32;
                p[*at as usize % l] = *to;
                let hsh = wire::sha256(&p[..l]);
                p[l..].copy_from_slice(&hsh);
                (p, None)
            }
            Body::Inner { dg } => (self.dgs.get(dg)?.bytes.clone(), None),
            Body::Plain(p) => (p.clone(), None),
        })
    }

    // ---------------------------------------------------------- one step

    pub fn apply(&mut self, ts: &TStep) -> R {
        let lane = if self.hop { mix(&[self.seed, 0x70, self.steps]) % 3 } else { 0 };
        let mut go = || {
            os::clock_set(true, 1_000_000_000_000 + ts.t.wrapping_mul(1000));
            let r = self.apply_inner(&ts.s);
            os::clock_set(false, 0);
            r
        };
        let r = if lane == 0 { go() } else { os::on_lane(lane as usize, &mut go) };
        if lane > 0 {
            self.stats.add("steps_on_another_thread", 1);
        }
        self.steps += 1;
        match r {
            Err(v) if self.put_aside(&v) => Ok(()),
            r => r,
        }
    }
    fn apply_inner(&mut self, s: &Step) -> R {
        set_shape(self.app);
        self.last.clear();
        self.last_emitted = false;
        match s {
            Step::Create { h, kind, id, expect, cfg, ent } => self.create(*h, *kind, *id, expect, cfg, ent),
            Step::Connect { h, custom, dg, io } => {
                self.emit("connect", *h, *dg, *custom, io, DgKind::Connect)
            }
            Step::Ack { h, custom, dg, io } => self.emit("ack", *h, *dg, *custom, io, DgKind::Ack),
            Step::Batch { io, items } => self.batch(io, items),
            Step::Write { h, pay, dg, io } => self.emit("write", *h, *dg, Some(*pay), io, DgKind::User),
            Step::WriteMany { h, n, dg, len } => {
                let log = self.log.take();
                let mut r = Ok(());
                for i in 0..*n {
                    let pay = Pay { len: *len, seed: u64::from(*dg + i), style: 0 };
                    r = self.emit("write", *h, *dg + i, Some(pay), &None, DgKind::User);
                    if r.is_err() {
                        break;
                    }
                }
                self.log = log;
                r
            }
            Step::Clone { h, to } => self.clone_handle(*h, *to),
            Step::Config { h, cfg } => self.configure(*h, cfg),
            Step::TakeAck { h } => self.minimal_extra(*h, true),
            Step::Drain { h } => self.minimal_extra(*h, false),
            Step::Deliver { h, dg, m } => {
                let b = match self.dgs.get(dg) {
                    Some(d) => d.bytes.clone(),
                    None => return Ok(()),
                };
                if !m.is_empty() {
                    self.stats.add("datagrams_altered", 1);
                }
                let b = self.mutate(b, m);
                self.deliver(*h, &b, "read")
            }
            Step::DeliverMany { h, dg, n, order } => {
                let mut ix: Vec<u32> = (*dg..*dg + *n).collect();
                match *order {
                    0 => {}
                    1 => ix.reverse(),
                    s => {
                        let mut r = Rng::new(s);
                        for i in (1..ix.len()).rev() {
                            let j = r.below(i as u64 + 1) as usize;
                            ix.swap(i, j);
                        }
                    }
                }
                let log = self.log.take();
                let mut r = Ok(());
                for i in ix {
                    let b = match self.dgs.get(&i) {
                        Some(d) => d.bytes.clone(),
                        None => continue,
                    };
                    r = self.deliver(*h, &b, "read");
                    if r.is_err() {
                        break;
                    }
                }
                self.log = log;
                r
            }
            Step::Drop { h } => self.drop_handle(*h),
            Step::CraftConnect { dg, epk, claim, sign, custom, algo, pre } => {
                let e = self.epk_bytes(epk);
                let m = wire::connect_unsigned(&e, [0, 0, 0, *algo], &wire::id_pk(*claim), custom);
                let mut m = self.mutate(m, pre);
                let s = self.signature(sign, &m);
                m.extend_from_slice(&s);
                self.craft(*dg, m);
                Ok(())
            }
            Step::CraftAck { dg, epk, sign, custom, pre } => {
                let e = self.epk_bytes(epk);
                let m = wire::ack_unsigned(&wire::sha256(&e), custom);
                let mut m = self.mutate(m, pre);
                let s = self.signature(sign, &m);
                m.extend_from_slice(&s);
                self.craft(*dg, m);
                Ok(())
            }
            Step::CraftRaw { dg, bytes } => {
                self.craft(*dg, bytes.clone());
                Ok(())
            }
            Step::CraftUser { dg, h, body } => {
                if let Some((p, w)) = self.body_plain(*h, body) {
                    self.craft_cipher(*dg, *h, p, w);
                }
                Ok(())
            }
            Step::CraftMany { dg, h, nonce, n, stride } => {
                for i in 0..*n {
                    let nonce = nonce.wrapping_add(stride.wrapping_mul(u64::from(i)));
                    let pay = Pay { len: 8, seed: u64::from(*dg + i), style: 0 };
                    if let Some((p, w)) = self.body_plain(*h, &Body::User { nonce, pay }) {
                        self.craft_cipher(*dg + i, *h, p, w);
                    }
                }
                Ok(())
            }
            Step::Alter { dg, from, m } => {
                if let Some(d) = self.dgs.get(from) {
                    let b = self.mutate(d.bytes.clone(), m);
                    self.craft(*dg, b);
                }
                Ok(())
            }
            Step::EntropyBit { kind, own_id, seed, pos, bit } => self.entropy_bit(*kind, *own_id, *seed, *pos, *bit),
            Step::EntropyScript { kind, own_id, seed, script } => {
                self.entropy_script(*kind, *own_id, *seed, script)
            }
            Step::EntropySeed { seed, script, flip } => self.entropy_seed(*seed, script, *flip),
            Step::SeedDrop { seed } => {
                let mut r = Rng::new(*seed);
                let mut b = [0u8; 32];
                for x in b.iter_mut() {
                    *x = r.next_u64() as u8;
                }
                let s = Box::new(pkstl::Seed32::new(b));
                let keep = Box::new((*s).clone());
                let own = &*s as *const pkstl::Seed32 as usize;
                let (hits, looked) = os::scanned(&b, own, &[(0, 0, 32)], || drop(s));
                self.stats.add("bytes_scanned", looked);
                self.note(&format!("seed drop -> {} hits", hits));
                if hits > 0 {
                    return Err(viol(&["C17"], "seed-left", format!("a dropped seed left {} pieces in memory", hits)));
                }
                if keep.as_ref().as_ref() != b {
                    return Err(viol(&["C17"], "seed-clone", "dropping a seed changed its clone".into()));
                }
                Ok(())
            }
            Step::Observe => self.observe(),
        }
    }

    fn create(&mut self, h: u32, kind: Kind, id: u8, expect: &Expect, cfg: &Cfg, ent: &[u8]) -> R {
        if self.hs.contains_key(&h) {
            return Ok(());
        }
        let exp_pk = match expect {
            Expect::Any => None,
            Expect::Id(i) => Some(wire::id_pk(*i)),
            Expect::Raw(b) => Some(b.clone()),
            Expect::Of(ep) => self.ep_pk.get(ep).cloned(),
        };
        let e2 = exp_pk.clone();
        let seed = mix(&[self.seed, 79, u64::from(h), ent.len() as u64]);
        // some reference peers use the same ephemeral key in other worlds: what the real side
        // derives from it must stay its own
        let label = match mix(&[self.seed, 83]) % 5 {
            0 => mix(&[80, u64::from(h)]),
            _ => mix(&[self.seed, 80, u64::from(h)]),
        };
        self.stats.add("peers_with_kept_keys", u64::from(kind.is_ref() && mix(&[self.seed, 83]) % 5 == 0));
        let c = call(seed, ent, None, || Node::create(kind, id, e2, cfg, label));
        let hard = c.fired[os::E_EIO as usize] + c.fired[os::E_ENOSYS as usize] + c.fired[os::E_EAGAIN as usize] > 0;
        let soft = c.fired.iter().sum::<u32>() > c.fired[0];
        self.stats.add("entropy_interrupted", u64::from(c.fired[os::E_EINTR as usize]));
        self.stats.add(
            "entropy_short",
            u64::from(c.fired[os::E_SHORT1 as usize] + c.fired[os::E_SHORTHALF as usize]),
        );
        self.stats.add(
            "entropy_failed",
            u64::from(c.fired[os::E_EIO as usize] + c.fired[os::E_ENOSYS as usize] + c.fired[os::E_EAGAIN as usize]),
        );
        let need = if id == 255 { 64 } else { 32 };
        match c.r {
            Err(p) => {
                self.note(&format!("create {} -> panicked", h));
                // a failing source makes Seed32::random panic by design: it cannot return an error
                if hard && id == 255 {
                    return Ok(());
                }
                return Err(viol(&["C16", "C07"], "panic/create", format!("create panicked: {}", p)));
            }
            Ok(Err(e)) => {
                self.note(&format!("create {} -> refused ({})", h, e));
                if hard {
                    return Ok(());
                }
                return Err(viol(&["C16", "C04"], "create-refused", format!("create {:?} refused: {} (random source: {:?})", kind, e, c.fired)));
            }
            Ok(Ok(node)) => {
                if hard {
                    return Err(viol(
                        &["C16"],
                        "created-without-entropy",
                        format!("create {:?} succeeded although the random source failed", kind),
                    ));
                }
                if !kind.is_ref() && c.served < need {
                    return Err(viol(
                        &["C16"],
                        "too-little-entropy",
                        format!("create {:?} used {} random bytes", kind, c.served),
                    ));
                }
                let mut sh = Shadow::new(kind, h, *cfg, exp_pk);
                sh.ent_faults = soft;
                if let Node::Ref(r) = &node {
                    sh.own_epk = Some(r.epk);
                    self.ref_keys.insert(r.epk, r.priv_key);
                    self.ep_epk.insert(h, r.epk);
                }
                if id != 255 {
                    self.ep_pk.insert(h, wire::id_pk(id));
                }
                self.hs.insert(h, H { node, led: Led::new(sh.pinned.clone()), sh, id, ops: 0, held_bytes: 0 });
                self.note(&format!("create {} {:?} id {} -> ok", h, kind, id));
                self.after(h);
            }
        }
        Ok(())
    }

    fn clone_handle(&mut self, from: u32, to: u32) -> R {
        if self.hs.contains_key(&to) {
            return Ok(());
        }
        let seed = self.seed;
        let (exp, sh, id, c, held) = {
            let h = match self.hs.get_mut(&from) {
                Some(h) if !h.sh.kind.is_ref() => h,
                _ => return Ok(()),
            };
            let exp = h.sh.can_clone();
            h.ops += 1;
            let ent = mix(&[seed, 81, u64::from(from), h.ops]);
            let node = &mut h.node;
            let watch = key_of(&self.secrets, &self.ref_keys, self.goal, &h.sh);
            let c = keyed(&watch, || call(ent, &[], None, || node.try_clone()));
            if exp.is_err() {
                h.sh.refused_calls += 1;
            }
            (exp, h.sh.clone(), h.id, c, h.held_bytes)
        };
        let made = match &c.r {
            Ok(Ok(n)) => n.block(),
            _ => None,
        };
        self.key_after(from, "clone", made)?;
        let r = match c.r {
            Err(p) => {
                return Err(viol(&["C07", "C14"], "panic/clone", format!("try_clone panicked: {}", p)))
            }
            Ok(r) => r,
        };
        self.note(&format!("clone {} -> {}", from, if r.is_ok() { "ok" } else { "refused" }));
        if self.record {
            self.transcript.push(u64::from(r.is_ok()));
        }
        self.seen(b'C', from, u8::from(exp.is_ok()));
        let exp = if self.adrift {
            self.apart_clone(from, r.is_ok())?;
            if r.is_ok() {
                Ok(())
            } else {
                Err(Why::CallNotEst)
            }
        } else {
            exp
        };
        match (exp, r) {
            (Ok(()), Ok(node)) => {
                if let Some(h) = self.hs.get_mut(&from) {
                    h.sh.cloned = true;
                }
                let mut s2 = sh;
                s2.clone = true;
                s2.cloned = true;
                s2.held_ack = None;
                self.stats.add("clones", 1);
                let led = self.hs[&from].led.clone();
                self.hs.insert(to, H { node, sh: s2, id, ops: 0, held_bytes: held, led });
                self.after(to);
                Ok(())
            }
            (Ok(()), Err(e)) => {
                if sh.lenient {
                    return Ok(());
                }
                let mut t = vec!["C14", "C04"];
                if sh.refused_handshakes > 0 {
                    t.push("C06");
                }
                if sh.refused_calls > 0 {
                    t.push("C09");
                }
                Err(viol(&t, "clone-refused", format!("handle {} is established but try_clone says {}", from, e)))
            }
            (Err(w), Ok(_)) => {
                let t = match w {
                    Why::AlreadyFailed => vec!["C08"],
                    _ => vec!["C09", "C05"],
                };
                let v = viol(
                    &t,
                    &format!("cloned/{:?}", w),
                    format!("handle {} must refuse try_clone ({:?}; failed: {:?})", from, w, sh.fail),
                );
                if self.put_aside(&v) {
                    return self.apart_clone(from, true);
                }
                Err(v)
            }
            (Err(_), Err(_)) => Ok(()),
        }
    }
    fn configure(&mut self, hid: u32, cfg: &Cfg) -> R {
        let seed = self.seed;
        let (cloned, c, lenient) = {
            let h = match self.hs.get_mut(&hid) {
                Some(h) => h,
                None => return Ok(()),
            };
            h.ops += 1;
            let ent = mix(&[seed, 82, u64::from(hid), h.ops]);
            let node = &mut h.node;
            let c = call(ent, &[], None, || node.change_config(cfg));
            (h.sh.cloned, c, h.sh.lenient)
        };
        let r = match c.r {
            Err(p) => return Err(viol(&["C07", "C11"], "panic/config", format!("change_config panicked: {}", p))),
            Ok(r) => r,
        };
        self.note(&format!("config {} -> {}", hid, r.is_ok()));
        self.seen(b'F', hid, u8::from(cloned));
        if self.record {
            self.transcript.push(u64::from(r.is_ok()));
        }
        match (cloned, r) {
            (true, Ok(())) => Err(viol(
                &["C14"],
                "config-after-clone",
                format!("handle {} changed its configuration after a clone was made", hid),
            )),
            (false, Err(e)) => {
                if lenient {
                    return Ok(());
                }
                Err(viol(&["C11", "C14"], "config-refused", format!("handle {}: {}", hid, e)))
            }
            (false, Ok(())) => {
                if let Some(h) = self.hs.get_mut(&hid) {
                    h.sh.cfg = *cfg;
                    h.sh.cfg_changes += 1;
                    if let Node::Ref(r) = &mut h.node {
                        r.cfg = *cfg;
                    }
                }
                self.stats.add("config_changes", 1);
                Ok(())
            }
            (true, Err(_)) => {
                if let Some(h) = self.hs.get_mut(&hid) {
                    h.sh.refused_calls += 1;
                }
                Ok(())
            }
        }
    }
    fn minimal_extra(&mut self, hid: u32, take: bool) -> R {
        let seed = self.seed;
        let (exp, before, c, n) = {
            let h = match self.hs.get_mut(&hid) {
                Some(h) if h.sh.kind == Kind::Min => h,
                _ => return Ok(()),
            };
            let before = h.sh.brief();
            let exp = if take { h.sh.take_ack(&self.reg) } else { h.sh.drain(&self.reg) };
            h.ops += 1;
            let ent = mix(&[seed, 83, u64::from(hid), h.ops]);
            let watch = key_of(&self.secrets, &self.ref_keys, self.goal, &h.sh);
            let node = &mut h.node;
            let c = keyed(&watch, || call(ent, &[], None, || if take { node.take_ack() } else { node.drain() }));
            (exp, before, c, h.held_bytes)
        };
        self.key_after(hid, if take { "take" } else { "drain" }, None)?;
        self.check_read(if take { "take" } else { "drain" }, hid, n, exp, before, c)?;
        self.after(hid);
        Ok(())
    }
    /// After a call during which the key was watched.
    fn key_after(&mut self, hid: u32, op: &str, made: Option<(usize, usize)>) -> R {
        let (freed, kept) = match os::key_seen() {
            (0, v) if v.is_empty() => return Ok(()),
            x => x,
        };
        let ep = match self.hs.get(&hid) {
            Some(h) => h.sh.ep,
            None => return Ok(()),
        };
        if freed > 0 {
            return Err(viol(
                &["C17"],
                "key-in-released-memory",
                format!("{} on handle {} gave back {} heap blocks with the session key in them", op, hid, freed),
            ));
        }
        let own: Vec<usize> = self.hs.values().filter_map(|h| h.node.block()).chain(made).map(|b| b.0).collect();
        for p in kept {
            if !own.contains(&p) {
                self.stats.add("heap_blocks_with_the_key", 1);
                os::kept(p);
                self.kept.entry(ep).or_default().push(p);
            }
        }
        Ok(())
    }
    fn drop_handle(&mut self, hid: u32) -> R {
        let h = match self.hs.remove(&hid) {
            Some(h) => h,
            None => return Ok(()),
        };
        self.stats.add("handles_dropped", 1);
        let ep = h.sh.ep;
        let secret = h.sh.sess().and_then(|s| self.secrets.get(&s).copied());
        let is_ref = h.sh.kind.is_ref();
        let phase = if h.sh.fail.is_some() {
            "failed"
        } else if h.sh.est {
            "established"
        } else {
            "negotiating"
        };
        let mut node = h.node;
        match secret {
            Some(k) if !is_ref => {
                let (own, live) = key_places(&mut node, &k, h.sh.clone);
                let (hits, looked) = os::scanned(&k, own, &live, || drop(node));
                self.stats.add("bytes_scanned", looked);
                self.stats.add("keys_looked_for", 1);
                if !live.is_empty() {
                    self.stats.add("keys_present_before_drop", 1);
                }
                if hits > 0 {
                    return Err(viol(
                        &["C17"],
                        "key-left",
                        format!(
                            "handle {} ({:?}, {}, clone {}) was dropped but its memory still holds {} pieces of the session key",
                            hid, h.sh.kind, phase, h.sh.clone, hits
                        ),
                    ));
                }
            }
            _ => drop(node),
        }
        let mut last = true;
        for o in self.hs.values_mut() {
            if o.sh.ep == ep {
                o.sh.dropped_sibling = true;
                last = false;
            }
        }
        if let (true, Some(k)) = (last, secret) {
            let n = self.kept.remove(&ep).unwrap_or_default().iter().filter(|p| os::still_there(**p, &k)).count();
            if n > 0 {
                return Err(viol(
                    &["C17"],
                    "key-copy-left",
                    format!("handle {}, the last of its endpoint, was dropped, but {} heap blocks made for it still hold the session key", hid, n),
                ));
            }
        }
        self.note(&format!("drop {}", hid));
        self.seen(b'D', hid, 0);
        Ok(())
    }

    // ---------------------------------------------------------- entropy

    /// The public key material of an endpoint created from this entropy.
    fn keys_of(kind: Kind, own_id: bool, seed: u64, script: &[u8], flip: Option<(u64, u8)>) -> Called<Result<Vec<u8>, String>> {
        let cfg = Cfg { level: 1, min: 8192, fmt: 2 };
        let id = if own_id && kind != Kind::Min { 255 } else { 0 };
        let c = call(seed, script, flip, || Node::create(kind, id, None, &cfg, 0));
        let Called { r, peak, served, fired } = c;
        let r = match r {
            Err(p) => Err(p),
            Ok(Err(e)) => Ok(Err(e)),
            Ok(Ok(mut n)) => {
                let c2 = call(1, &[], None, || n.connect(&None, &None));
                match c2.r {
                    Err(p) => Err(p),
                    Ok(o) => match wire::parse(&o.sink) {
                        Ok(p) => match p.head {
                            Head::Connect { epk, pk } => {
                                let mut v = epk.to_vec();
                                v.extend_from_slice(&pk);
                                Ok(Ok(v))
                            }
                            _ => Ok(Err("no connect".into())),
                        },
                        Err(e) => Ok(Err(e.into())),
                    },
                }
            }
        };
        Called { r, peak, served, fired }
    }
    /// On how many of the random bytes served (their bit `bit`) the keys depend.
    fn influence(kind: Kind, own_id: bool, seed: u64, script: &[u8], bit: u8) -> u64 {
        let a = Self::keys_of(kind, own_id, seed, script, None);
        let k = match a.r {
            Ok(Ok(k)) => k,
            _ => return 0,
        };
        (0..a.served.min(4096))
            .filter(|p| matches!(Self::keys_of(kind, own_id, seed, script, Some((*p, bit))).r, Ok(Ok(y)) if y != k))
            .count() as u64
    }
    fn entropy_bit(&mut self, kind: Kind, own_id: bool, seed: u64, pos: u32, bit: u8) -> R {
        let a = Self::keys_of(kind, own_id, seed, &[], None);
        let served = a.served.max(1);
        let pos = u64::from(pos) % served;
        // bits 0-2 of the first and 6-7 of the last byte of an X25519 key do not count
        let bit = bit % 8;
        let edge = u64::from(!(3..6).contains(&bit));
        let b = Self::keys_of(kind, own_id, seed, &[], Some((pos, bit)));
        let a2 = Self::keys_of(kind, own_id, seed, &[], None);
        self.stats.add("entropy_bits_flipped", 1);
        self.note(&format!("entropy bit {} {} of {}", pos, bit, served));
        self.seen(b'E', kind as u32, pos as u8);
        let need = if own_id && kind != Kind::Min { 64 } else { 32 };
        if a.served < need {
            return Err(viol(&["C16"], "too-little-entropy", format!("{:?} used {} random bytes, not {}", kind, a.served, need)));
        }
        match (a.r, b.r, a2.r) {
            (Ok(Ok(x)), Ok(Ok(y)), Ok(Ok(z))) => {
                if x == y {
                    // Bytes may be drawn for something else; what counts is how many the keys are made of.
                    let n = Self::influence(kind, own_id, seed, &[], bit);
                    self.stats.add("entropy_influence_counted", 1);
                    if n < need - edge {
                        return Err(viol(
                            &["C16"],
                            "entropy-ignored",
                            format!("{:?}: random byte {} bit {} has no influence on the keys, only {} of {} do", kind, pos, bit, n, need),
                        ));
                    }
                }
                if x != z {
                    return Err(viol(
                        &["C18", "C16"],
                        "keys-depend-on-history",
                        format!("{:?}: the same random bytes gave other keys the second time", kind),
                    ));
                }
                Ok(())
            }
            (x, y, _) => Err(viol(
                &["C16"],
                "create-refused",
                format!("{:?}: create failed with a working random source: {:?} {:?}", kind, x.map(|r| r.map(|_| ())), y.map(|r| r.map(|_| ()))),
            )),
        }
    }
    fn entropy_script(&mut self, kind: Kind, own_id: bool, seed: u64, script: &[u8]) -> R {
        let plain = Self::keys_of(kind, own_id, seed, &[], None);
        let s = Self::keys_of(kind, own_id, seed, script, None);
        let hard = s.fired[os::E_EIO as usize] + s.fired[os::E_ENOSYS as usize] + s.fired[os::E_EAGAIN as usize] > 0;
        self.stats.add("entropy_interrupted", u64::from(s.fired[os::E_EINTR as usize]));
        self.stats.add("entropy_short", u64::from(s.fired[os::E_SHORT1 as usize] + s.fired[os::E_SHORTHALF as usize]));
        if hard {
            self.stats.add("entropy_failed", 1);
        }
        self.note(&format!("entropy script {:?} -> {}", script, matches!(s.r, Ok(Ok(_)))));
        self.seen(b'S', kind as u32, fnv(FNV0, script) as u8);
        let again = Self::keys_of(kind, own_id, seed, &[], None);
        let again_ok = matches!((&plain.r, &again.r), (Ok(Ok(a)), Ok(Ok(b))) if a == b);
        if !again_ok {
            return Err(viol(&["C16", "C18"], "after-entropy-fault", format!("{:?}: creation with a working source does not give the same endpoint after faults {:?}", kind, script)));
        }
        match (s.r, plain.r) {
            (Ok(Ok(k)), Ok(Ok(p))) => {
                if hard {
                    return Err(viol(&["C16"], "created-without-entropy", format!("{:?}: script {:?}", kind, script)));
                }
                if k != p && Self::influence(kind, own_id, seed, script, 4) < if own_id && kind != Kind::Min { 64 } else { 32 } {
                    return Err(viol(
                        &["C16"],
                        "entropy-lost",
                        format!("{:?}: with interruptions and short results {:?} the keys are not made of the bytes the source gave", kind, script),
                    ));
                }
                Ok(())
            }
            (Ok(Err(e)), _) => {
                if hard {
                    Ok(())
                } else {
                    Err(viol(&["C16"], "create-refused", format!("{:?}: script {:?}: {}", kind, script, e)))
                }
            }
            (Err(p), _) => {
                if hard && own_id {
                    Ok(())
                } else {
                    Err(viol(&["C16", "C07"], "panic/create", format!("{:?}: script {:?}: {}", kind, script, p)))
                }
            }
            _ => Ok(()),
        }
    }
    fn entropy_seed(&mut self, seed: u64, script: &[u8], flip: Option<(u32, u8)>) -> R {
        let a = call(seed, &[], None, pkstl::Seed32::random);
        let b = call(
            seed,
            script,
            flip.map(|(p, b)| (u64::from(p % 32), b)),
            pkstl::Seed32::random,
        );
        let hard = b.fired[os::E_EIO as usize] + b.fired[os::E_ENOSYS as usize] + b.fired[os::E_EAGAIN as usize] > 0;
        self.stats.add("entropy_seeds", 1);
        self.note(&format!("entropy seed {:?} {:?}", script, flip));
        self.seen(b'R', script.len() as u32, u8::from(hard));
        if a.served < 32 {
            return Err(viol(&["C16"], "too-little-entropy", format!("a seed used {} random bytes", a.served)));
        }
        match (a.r, b.r) {
            (Ok(x), Ok(y)) => {
                if hard {
                    return Err(viol(&["C16"], "seed-without-entropy", format!("{:?}", script)));
                }
                let same = x == y;
                let used = || {
                    let n = call(seed, script, None, pkstl::Seed32::random).served.min(4096);
                    (0..n)
                        .filter(|p| {
                            let f = |fl| call(seed, script, fl, pkstl::Seed32::random).r;
                            matches!((f(None), f(Some((*p, flip.map_or(0, |x| x.1))))), (Ok(x), Ok(y)) if x != y)
                        })
                        .count()
                };
                if same != flip.is_none() && used() < 32 {
                    return Err(viol(
                        &["C16"],
                        "entropy-lost",
                        format!("seed from the same bytes: equal={} although flipped={:?} script={:?}", same, flip, script),
                    ));
                }
                Ok(())
            }
            (Ok(_), Err(p)) => {
                if hard {
                    Ok(())
                } else {
                    Err(viol(&["C16", "C07"], "panic/seed", format!("{:?}: {}", script, p)))
                }
            }
            (Err(p), _) => Err(viol(&["C16", "C07"], "panic/seed", p)),
        }
    }

    // ---------------------------------------------------------- observer

    fn observe(&mut self) -> R {
        self.stats.add("observations", 1);
        // no key from public values opens anything
        let mut cands: Vec<[u8; 48]> = vec![[0; 48], [0xff; 48]];
        let epks: Vec<[u8; 32]> = self.epks.keys().copied().collect();
        let mut pairs: BTreeSet<Sess> = self.wire_users.iter().map(|(s, _)| *s).collect();
        if self.adrift {
            // who negotiated with whom is not known any more: every pair of keys on the wire
            let mut seen: BTreeSet<[u8; 32]> = epks.iter().copied().collect();
            for d in self.dgs.values() {
                if let Ok(p) = wire::parse(&d.bytes) {
                    if let Head::Connect { epk, .. } = p.head {
                        seen.insert(epk);
                    }
                }
            }
            let v: Vec<[u8; 32]> = seen.into_iter().take(12).collect();
            for (i, a) in v.iter().enumerate() {
                for b in &v[i..] {
                    pairs.insert(sess(*a, *b));
                }
            }
        }
        for s in pairs {
            for shared in [
                vec![],
                vec![0u8; 32],
                s.0.to_vec(),
                s.1.to_vec(),
                wire::sha256(&s.0).to_vec(),
                wire::sha256(&s.1).to_vec(),
                s.0.iter().zip(&s.1).map(|(a, b)| a ^ b).collect(),
                [s.0.to_vec(), s.1.to_vec()].concat(),
                [s.1.to_vec(), s.0.to_vec()].concat(),
            ] {
                cands.push(wire::derive(&shared, &s.0, &s.1));
            }
            for e in &epks {
                let mut k = [0u8; 48];
                k[..32].copy_from_slice(e);
                k[32..].copy_from_slice(&e[..16]);
                cands.push(k);
            }
        }
        let mut first: BTreeMap<Vec<u8>, Sess> = BTreeMap::new();
        let mut reuse = None;
        let mut seen_in: BTreeMap<Sess, BTreeSet<Vec<u8>>> = BTreeMap::new();
        for (n, (s, dg)) in self.wire_users.iter().enumerate() {
            let d = match self.dgs.get(dg) {
                Some(d) => d,
                None => continue,
            };
            if d.bytes.len() < 74 {
                continue;
            }
            if n < 6 {
                for k in &cands {
                    if wire::open(k, &d.bytes).is_some() {
                        return Err(viol(&["C12"], "key-from-public-values", format!("datagram {} opens with a key computed from public values", dg)));
                    }
                }
            }
            // magic value and version are known plaintext: 8 bytes of key stream
            let known = [0xE2u8, 0xC2, 0xE2, 0xD2, 0, 0, 0, 1];
            let ks: Vec<u8> = d.bytes[..8].iter().zip(&known).map(|(a, b)| a ^ b).collect();
            if ks.iter().all(|b| *b == 0) || ks.iter().all(|b| *b == ks[0]) {
                return Err(viol(&["C12"], "no-key-stream", format!("datagram {}", dg)));
            }
            if let Some(o) = first.insert(ks.clone(), *s) {
                if o != *s {
                    return Err(viol(
                        &["C12"],
                        "key-stream-shared-across-sessions",
                        format!("datagram {} uses the key stream of another session", dg),
                    ));
                }
            }
            if !seen_in.entry(*s).or_default().insert(ks) {
                reuse = Some(*dg);
            }
            for p in &self.payloads {
                if find(&d.bytes, &p[..12]) || find(&d.bytes, &p[p.len() - 12..]) {
                    return Err(viol(&["C12"], "plaintext-on-wire", format!("datagram {}", dg)));
                }
            }
        }
        // no session key on the wire
        for (s, k) in &self.secrets {
            for (id, d) in &self.dgs {
                if d.kind == DgKind::Craft {
                    continue;
                }
                if find(&d.bytes, &k[..8]) || find(&d.bytes, &k[24..32]) || find(&d.bytes, &k[32..40]) {
                    return Err(viol(&["C12"], "key-on-wire", format!("datagram {} carries the key of session {}", id, short(&s.0))));
                }
            }
        }
        if let Some(dg) = reuse {
            self.soft.push(viol(
                &["C12"],
                "keystream-reuse-within-session",
                format!("datagram {} is encrypted with the key stream of an earlier message of its session", dg),
            ));
        }
        Ok(())
    }
}

pub fn find(hay: &[u8], needle: &[u8]) -> bool {
    if needle.len() > hay.len() || needle.is_empty() {
        return false;
    }
    let f = needle[0];
    let last = hay.len() - needle.len();
    let mut i = 0;
    while i <= last {
        if hay[i] == f && &hay[i..i + needle.len()] == needle {
            return true;
        }
        i += 1;
    }
    false
}

pub fn why_name(w: Why) -> &'static str {
    match w {
        Why::AlreadyFailed => "refused_already_failed",
        Why::Malformed => "refused_malformed",
        Why::ClearUser => "refused_clear_user",
        Why::EncHandshake => "refused_encrypted_handshake",
        Why::NoKey => "refused_no_key",
        Why::Undecryptable => "refused_undecryptable",
        Why::CrossSession => "refused_cross_session",
        Why::Reflected => "refused_reflected",
        Why::Replay => "refused_replay",
        Why::BadHash => "refused_bad_hash",
        Why::UserTooEarly => "refused_user_too_early",
        Why::WrongIdentity => "refused_wrong_identity",
        Why::BadSig => "refused_bad_signature",
        Why::SigLen => "refused_signature_of_wrong_length",
        Why::BadChallenge => "refused_bad_challenge",
        Why::OwnConnect => "refused_own_connect",
        Why::DupConnect => "refused_duplicate_connect",
        Why::DupAck => "refused_duplicate_ack",
        Why::EarlyAckTwice => "refused_second_early_ack",
        Why::Window => "refused_window",
        Why::LowOrder => "refused_low_order_key",
        Why::BodyCodec => "refused_body_codec",
        _ => "refused_call",
    }
}

const IO_NAMES: [&str; 6] =
    ["io_short_write", "io_interrupted", "io_error", "io_would_block", "io_write_zero", "io_disk_full"];

/// The key a handle has or gets in the call that follows, where it is known and asked for.
fn key_of(
    secrets: &BTreeMap<Sess, [u8; 48]>,
    refs: &BTreeMap<[u8; 32], [u8; 32]>,
    goal: Option<&'static str>,
    sh: &Shadow,
) -> Option<[u8; 48]> {
    if goal != Some("C17") || sh.kind.is_ref() {
        return None;
    }
    let s = sh.sess()?;
    secrets.get(&s).copied().or_else(|| {
        // the other side has not computed it yet
        let own = sh.own_epk?;
        let peer = sh.peer_epk?;
        let z = wire::x25519(refs.get(&peer)?, &own)?;
        Some(wire::derive(&z, &peer, &own))
    })
}
fn keyed<T>(k: &Option<[u8; 48]>, f: impl FnOnce() -> T) -> T {
    match k {
        Some(k) => os::key_watch(k),
        None => os::key_idle(),
    }
    f()
}

/// Where a handle keeps its session key, just before it is dropped: its block, and the places in
/// it (offset in the block, offset in the key material, length).
fn key_places(node: &mut Node, k: &[u8; 48], clone: bool) -> (usize, Vec<(usize, usize, usize)>) {
    let (base, size) = match node.block() {
        Some(b) => b,
        None => return (0, vec![]),
    };
    let find = |piece: &[u8]| -> Vec<usize> {
        // SAFETY: the block is alive and initialised by the allocator or by the handle
        let block = unsafe { std::slice::from_raw_parts(base as *const u8, size) };
        (0..=size - piece.len()).filter(|i| &block[*i..*i + piece.len()] == piece).collect()
    };
    let mut keys = find(&k[..32]);
    if clone && keys.len() > 1 {
        // a clone is built on the stack, and fields that hold nothing may carry leftovers of it:
        // the place that matters is the one the handle encrypts with
        keys.retain(|at| {
            let p = (base + at) as *mut u8;
            // SAFETY: inside the block, which is exclusively ours; bytes of a key may take any value
            unsafe { p.write_volatile(p.read_volatile() ^ 1) };
            let out = call(7, &[], None, || node.write(&Pay { len: 3, seed: 1, style: 0 }, &None));
            unsafe { p.write_volatile(p.read_volatile() ^ 1) };
            match out.r {
                Ok(o) if o.res.is_ok() => wire::open(k, &o.sink).is_none(),
                _ => false,
            }
        });
    }
    let mut live: Vec<(usize, usize, usize)> = keys.iter().map(|a| (*a, 0, 32)).collect();
    let nonces = find(&k[32..44]);
    if nonces.len() == 1 && !keys.is_empty() {
        live.push((nonces[0], 32, 12));
    }
    (base, live)
}

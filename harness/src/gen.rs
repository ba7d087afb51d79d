//! Makes runs: a discrete-event simulation whose every choice comes from one integer. While a run
//! is made it is executed; what is kept is the list of concrete steps.

use crate::node::Ev;
use crate::os;
use crate::refend;
use crate::rng::{mix, Rng};
use crate::shadow::*;
use crate::sim::*;
use crate::types::*;
use crate::wire;
use std::collections::BTreeMap;

pub type R = Result<(), Viol>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Harm {
    /// nothing that has an effect on the target
    Free,
    /// also a forged ACK that is set aside
    Hold,
    Any,
}

/// What a run is like. Drawn per run, so that runs differ in kind and not only in detail.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub sessions: usize,
    pub refs: f64,
    pub only_mode: Option<Mode>,
    pub same_ids: bool,
    pub random_id: f64,
    pub pin: f64,
    pub late_create: f64,
    pub start_spread: u64,
    pub ack_delay: u64,
    pub hs_lat: (u64, u64),
    pub us_lat: (u64, u64),
    pub loss: f64,
    pub dup: f64,
    pub partitions: u32,
    pub stalls: u32,
    pub writes: (u64, u64),
    pub gap: u64,
    pub clones: f64,
    pub both_write: f64,
    pub configs: f64,
    pub drops: f64,
    pub io: f64,
    pub io_hard: f64,
    pub hs_io: f64,
    pub batch: f64,
    pub ent: f64,
    pub custom: f64,
    pub big: f64,
    pub wild_cfg: bool,
    pub bad_fmt: f64,
    pub soup: f64,
    pub attacks: (u64, u64),
    pub harm: Harm,
    /// weights: mutate, replay, cross, reflect hs, connect, ack, raw, splice, malicious user, resigned
    pub aw: [u32; 10],
    pub kills: u32,
    pub safe: bool,
    pub clock: f64,
    pub probe: bool,
    pub min_extra: f64,
    pub observe: bool,
    pub hop: bool,
    pub crashes: u32,
    pub flood: f64,
    /// thousands of user messages overtake the ACK
    pub crowd: f64,
}
impl Knobs {
    pub fn base(r: &mut Rng) -> Knobs {
        fn lat(r: &mut Rng) -> (u64, u64) {
            let lo = 1u64 << r.range(3, 20);
            (lo, lo << r.range(0, 8))
        }
        Knobs {
            sessions: 1,
            refs: 0.2,
            only_mode: None,
            same_ids: false,
            random_id: 0.2,
            pin: 0.5,
            late_create: 0.15,
            start_spread: 1 << r.range(3, 24),
            ack_delay: 1 << r.range(0, 24),
            hs_lat: lat(r),
            us_lat: lat(r),
            loss: *r.pick(&[0.0, 0.0, 0.05, 0.2, 0.5]),
            dup: *r.pick(&[0.0, 0.05, 0.2, 0.5]),
            partitions: if r.chance(0.2) { 1 } else { 0 },
            stalls: if r.chance(0.2) { 1 } else { 0 },
            writes: (0, 12),
            gap: 1 << r.range(0, 22),
            clones: 0.0,
            both_write: 0.15,
            configs: 0.0,
            drops: 0.0,
            io: 0.0,
            io_hard: 0.0,
            hs_io: 0.0,
            batch: 0.0,
            ent: 0.1,
            custom: 0.5,
            big: 0.01,
            wild_cfg: false,
            bad_fmt: 0.0,
            soup: 0.0,
            attacks: (0, 0),
            harm: Harm::Free,
            aw: [4, 3, 2, 1, 3, 3, 2, 2, 2, 2],
            kills: 0,
            safe: true,
            clock: 0.2,
            probe: true,
            min_extra: 0.2,
            observe: false,
            hop: false,
            crashes: 0,
            flood: 0.03,
            crowd: 0.012,
        }
    }
}

#[derive(Clone)]
struct Ep {
    h: u32,
    kind: Kind,
    id: u8,
    expect: Expect,
    peer: usize,
    sess: usize,
    readers: Vec<u32>,
    writers: Vec<u32>,
    conn: Option<u32>,
    ack: Option<u32>,
    sent: Vec<u32>,
    est: bool,
    ack_due: bool,
    probed: bool,
    todo: u64,
    stall: (u64, u64),
    cfg: Cfg,
    hs_dead: bool,
    waits: u32,
    gone: bool,
    /// who lives at this address after a crash
    heir: Option<usize>,
}

#[derive(Clone, Debug)]
enum E {
    Create(usize),
    Connect(usize),
    Ack(usize),
    Take(usize),
    Drain(usize),
    Write(usize),
    Deliver { e: usize, h: u32, dg: u32, tries: u32 },
    Clone(usize),
    Config(usize),
    DropH(usize),
    Attack,
    Kill,
    Soup,
    Probe(usize, u32),
    Crash,
    Down(usize),
}

pub struct Gen {
    pub sim: Sim,
    pub rng: Rng,
    pub plan: Vec<TStep>,
    pub k: Knobs,
    pub journal: Option<std::fs::File>,
    now: u64,
    skew: i64,
    q: BTreeMap<(u64, u64), E>,
    seq: u64,
    next_dg: u32,
    next_h: u32,
    eps: Vec<Ep>,
    parts: Vec<(u64, u64)>,
    steps_left: u32,
}

/// A hostile body of almost nothing: what decoders forget to look for.
fn tiny(r: &mut Rng) -> Vec<u8> {
    let mut t: Vec<u8> = match r.below(3) {
        0 => (0..r.below(9)).map(|_| r.next_u64() as u8).collect(),
        1 => vec![0; r.below(9) as usize],
        _ => {
            let mut v = vec![0, 0, 0, r.below(6) as u8];
            for _ in 0..r.below(6) {
                v.push(*r.pick(&[0u8, 1, 0x22, 0x5b, 0x7b, 0x40, 0x80, 0x9f, 0xbf, 0xff]));
            }
            v
        }
    };
    if r.chance(0.3) {
        t.truncate(r.below(5) as usize);
    }
    match r.below(5) {
        0 => t,
        1 => {
            let mut z = refend::deflate(&t, r.below(10) as u32);
            let cut = r.below(z.len() as u64 + 1) as usize;
            z.truncate(cut);
            z
        }
        2 => {
            let mut z = refend::deflate(&t, r.below(10) as u32);
            z.push(r.next_u64() as u8);
            z
        }
        _ => refend::deflate(&t, r.below(10) as u32),
    }
}

impl Gen {
    pub fn new(seed: u64, k: impl FnOnce(&mut Rng) -> Knobs) -> Gen {
        let mut rng = Rng::new(seed);
        let k = k(&mut rng);
        let mut sim = Sim::new(mix(&[seed, 0x51]));
        sim.hop = k.hop;
        Gen {
            sim,
            rng,
            plan: vec![],
            k,
            journal: None,
            now: 0,
            skew: 0,
            q: BTreeMap::new(),
            seq: 0,
            next_dg: 1,
            next_h: 1,
            eps: vec![],
            parts: vec![],
            steps_left: 4000,
        }
    }
    fn go(&mut self, s: Step) -> R {
        if self.k.clock > 0.0 && self.rng.chance(0.01 * self.k.clock * 5.0) {
            let j = 1i64 << self.rng.range(10, 42);
            self.skew += if self.rng.chance(0.5) { j } else { -j };
            self.sim.stats.add("clock_jumps", 1);
        }
        let t = (self.now as i64 + self.skew).max(0) as u64;
        let ts = TStep { t, s };
        if let Some(f) = &mut self.journal {
            use std::io::Write;
            let _ = writeln!(f, "{}", serde_json::to_string(&ts).expect("json"));
            let _ = f.flush();
        }
        self.plan.push(ts);
        let ts = self.plan[self.plan.len() - 1].clone();
        self.sim.apply(&ts)
    }
    fn dg(&mut self) -> u32 {
        self.next_dg += 1;
        self.next_dg - 1
    }
    fn dgs(&mut self, n: u32) -> u32 {
        let d = self.next_dg;
        self.next_dg += n;
        d
    }
    fn hid(&mut self) -> u32 {
        self.next_h += 1;
        self.next_h - 1
    }
    fn at(&mut self, t: u64, e: E) {
        self.seq += 1;
        self.q.insert((t, self.seq), e);
    }
    fn after(&mut self, d: u64, e: E) {
        let t = self.now + d;
        self.at(t, e);
    }
    fn lat(&mut self, hs: bool) -> u64 {
        let (lo, hi) = if hs { self.k.hs_lat } else { self.k.us_lat };
        let mut d = self.rng.range(lo, hi);
        if self.rng.chance(0.05) {
            d *= self.rng.range(2, 40);
        }
        d
    }

    // ------------------------------------------------------------ choices

    fn cfg(&mut self, ser: bool) -> Cfg {
        let wild = self.k.wild_cfg;
        let r = &mut self.rng;
        let fmt = if ser {
            if r.chance(self.k.bad_fmt) {
                r.below(2) as u8
            } else {
                r.range(2, 4) as u8
            }
        } else if wild {
            r.below(5) as u8
        } else {
            0
        };
        if !wild && r.chance(0.7) {
            return Cfg { level: 1, min: 8192, fmt };
        }
        Cfg {
            level: r.below(11) as u8,
            min: *r.pick(&[0, 1, 2, 10, 100, 1000, 8192, 65536, u32::MAX]),
            fmt,
        }
    }
    fn pay(&mut self) -> Pay {
        let big = self.k.big;
        let r = &mut self.rng;
        let len = match r.below(100) {
            0..=7 => 0,
            8..=34 => r.range(1, 32),
            35..=79 => r.range(16, 300),
            80..=89 => r.range(300, 3000),
            90..=95 => {
                let c = *r.pick(&[4096u64, 8192, 8192 - 74, 8192 - 42, 8192 - 58, 16384, 100, 1000]);
                if r.chance(0.4) { c } else { (c + r.below(7)).saturating_sub(3) }
            }
            _ => {
                if r.chance(big * 5.0) {
                    if r.chance(0.3) {
                        r.range(60_000, 1_000_000)
                    } else {
                        (*r.pick(&[32_768u64, 65_536, 65_535 - 74, 70_000]) + r.below(9)).saturating_sub(4)
                    }
                } else {
                    r.range(1, 600)
                }
            }
        };
        Pay { len: len as u32, seed: r.next_u64() >> 16, style: *r.pick(&[0, 0, 0, 0, 1, 2, 3, 4, 5]) }
    }
    fn custom(&mut self) -> Option<Pay> {
        let p = self.k.custom;
        if self.rng.chance(p) {
            let mut p = self.pay();
            if p.len > 5000 && self.rng.chance(0.7) {
                p.len %= 500;
            }
            Some(p)
        } else {
            None
        }
    }
    fn io(&mut self, hard: bool, size: u32) -> Io {
        let r = &mut self.rng;
        let cap = *r.pick(&[0u32, 0, 1, 2, 7, 16, 31, 64, 73, 100, 1024, 8192, 8192, 65536]);
        let mut acts = vec![];
        for _ in 0..r.skewed(12) {
            acts.push(match r.below(10) {
                0..=1 => Act::All,
                2..=5 => Act::Short(1 + r.skewed(200) as u32),
                6..=7 => Act::Eintr,
                _ => Act::Short(1),
            });
        }
        let mut full_at = None;
        if hard {
            match r.below(6) {
                0 => acts.push(Act::Err),
                1 => acts.push(Act::Again),
                2 => acts.push(Act::Zero),
                3 => {
                    let at = r.below(acts.len() as u64 + 1) as usize;
                    acts.insert(at, Act::Err);
                }
                _ => full_at = Some(r.below(u64::from(size) + 200) as u32),
            }
        }
        // a writer that takes one byte a time is slow for big messages
        let then = if size > 20_000 {
            *r.pick(&[0u32, 4096, 1000])
        } else {
            *r.pick(&[0u32, 0, 1, 3, 17, 100, 4096])
        };
        Io { cap, acts, then, full_at }
    }
    fn maybe_io(&mut self, e: usize, hs: bool, size: u32) -> Option<Io> {
        let kind = self.eps[e].kind;
        if kind.is_ref() || (hs && kind == Kind::Min) {
            return None;
        }
        let (p, ph) = if hs { (self.k.hs_io, self.k.io_hard * 0.3) } else { (self.k.io, self.k.io_hard) };
        if !self.rng.chance(p) {
            return None;
        }
        let hard = self.rng.chance(ph);
        Some(self.io(hard, size))
    }
    fn ent_script(&mut self, hard: bool) -> Vec<u8> {
        let r = &mut self.rng;
        let mut v = vec![];
        for _ in 0..r.range(1, 6) {
            v.push(match r.below(8) {
                0..=2 => os::E_EINTR,
                3..=4 => os::E_SHORT1,
                5 => os::E_SHORTHALF,
                _ => os::E_OK,
            });
        }
        if hard {
            let at = r.below(v.len() as u64 + 1) as usize;
            // ENOSYS only matters before ring has decided how to ask
            v.insert(at, *r.pick(&[os::E_EIO, os::E_EIO, os::E_EAGAIN]));
        }
        v
    }

    // ------------------------------------------------------------ sessions

    pub fn add_session(&mut self) -> (usize, usize) {
        let mode = match self.k.only_mode {
            Some(m) => m,
            // one layer per world: what a message means to an endpoint of another layer than its
            // writer's is nobody's promise
            None => {
                let m = *self.rng.pick(&[Mode::Raw, Mode::Zip, Mode::Zip, Mode::Ser]);
                self.k.only_mode = Some(m);
                m
            }
        };
        let (real, rf) = match mode {
            Mode::Raw => (Kind::Min, Kind::RefMin),
            Mode::Zip => (Kind::Bin, Kind::RefBin),
            Mode::Ser => (Kind::Ser, Kind::RefSer),
        };
        let i = self.eps.len();
        let base = if self.k.same_ids { 0 } else { (i % 8) as u8 };
        let r = self.k.refs;
        let which = if self.rng.chance(r) { Some(self.rng.below(2) as usize) } else { None };
        let s = i / 2;
        for side in 0..2 {
            let kind = if which == Some(side) { rf } else { real };
            let mut id = (base + side as u8) % 8;
            let p = self.k.random_id;
            if matches!(kind, Kind::Bin | Kind::Ser) && self.rng.chance(p) {
                id = 255;
            }
            let h = self.hid();
            let cfg = self.cfg(mode == Mode::Ser);
            let (lo, hi) = self.k.writes;
            let todo = self.rng.range(lo, hi);
            self.eps.push(Ep {
                h,
                kind,
                id,
                expect: Expect::Any,
                peer: i + 1 - side,
                sess: s,
                readers: vec![h],
                writers: vec![h],
                conn: None,
                ack: None,
                sent: vec![],
                est: false,
                ack_due: false,
                probed: false,
                todo,
                stall: (0, 0),
                cfg,
                hs_dead: false,
                waits: 0,
                gone: false,
                heir: None,
            });
        }
        for side in 0..2 {
            let p = self.k.pin;
            if self.rng.chance(p) {
                let peer = &self.eps[i + 1 - side];
                self.eps[i + side].expect = if peer.id == 255 { Expect::Of(peer.h) } else { Expect::Id(peer.id) };
            }
        }
        (i, i + 1)
    }
    fn schedule_session(&mut self, a: usize, b: usize) {
        let spread = self.k.start_spread;
        for e in [a, b] {
            let mut t = self.now + self.rng.below(spread);
            // the key of a random identity can only be expected once it has been seen
            let late = self.k.late_create;
            if matches!(self.eps[e].expect, Expect::Of(_)) {
                if matches!(self.eps[self.eps[e].peer].expect, Expect::Of(_)) {
                    self.eps[e].expect = Expect::Any;
                } else {
                    t += spread + self.rng.below(spread);
                }
            } else if self.rng.chance(late) {
                t += self.rng.below(4 * spread);
            }
            self.at(t, E::Create(e));
            let d = self.rng.below(spread) + 1;
            self.at(t + d, E::Connect(e));
            if self.rng.chance(0.3) && self.k.stalls > 0 {
                let s = t + self.rng.below(8 * spread);
                let l = 1 << self.rng.range(6, 23);
                self.eps[e].stall = (s, s + l);
            }
        }
        for _ in 0..self.k.partitions {
            let s = self.now + self.rng.below(8 * spread);
            let l = 1 << self.rng.range(6, 23);
            self.parts.push((s, s + l));
            self.sim.stats.add("partitions", 1);
        }
    }
    fn send(&mut self, e: usize, dg: u32, hs: bool) {
        let to = self.eps[e].peer;
        let mut copies = 1;
        if hs {
            if !self.k.safe && self.rng.chance(self.k.dup * 0.3) {
                copies = 2;
                self.sim.stats.add("net_duplicated", 1);
            }
        } else {
            let (loss, dup) = (self.k.loss, self.k.dup);
            if self.rng.chance(loss) {
                self.sim.stats.add("net_lost", 1);
                return;
            }
            while self.rng.chance(dup) && copies < 5 {
                copies += 1;
                self.sim.stats.add("net_duplicated", 1);
            }
        }
        for _ in 0..copies {
            let mut t = self.now + self.lat(hs);
            for (s, f) in self.parts.clone() {
                if t >= s && t < f {
                    if !hs && self.rng.chance(0.5) {
                        self.sim.stats.add("net_lost_in_partition", 1);
                        t = u64::MAX;
                        break;
                    }
                    t = f + self.lat(hs);
                    self.sim.stats.add("net_held_by_partition", 1);
                }
            }
            if t == u64::MAX {
                continue;
            }
            let (s, f) = self.eps[to].stall;
            if t >= s && t < f {
                t = f;
                self.sim.stats.add("held_by_stalled_node", 1);
            }
            for h in self.eps[to].readers.clone() {
                self.at(t, E::Deliver { e: to, h, dg, tries: 0 });
            }
        }
    }

    /// What the model says would happen, without doing it.
    fn preview(&self, h: u32, bytes: &[u8]) -> Option<(Exp, Shadow, bool)> {
        let x = self.sim.hs.get(&h)?;
        let mut s = x.sh.clone();
        let e = s.read(&self.sim.reg, bytes);
        let worse = (s.fail.is_some() && x.sh.fail.is_none()) || (s.lenient && !x.sh.lenient);
        Some((e, s, worse))
    }
    fn react(&mut self, e: usize, h: u32) {
        let evs = std::mem::take(&mut self.sim.last);
        for ev in &evs {
            match ev {
                Ev::Connect { .. } => {
                    if !self.eps[e].ack_due {
                        self.eps[e].ack_due = true;
                        let m = self.k.ack_delay;
                        let d = self.rng.below(m);
                        self.after(d, E::Ack(e));
                    }
                    if self.eps[e].kind == Kind::Min {
                        let d = if self.rng.chance(0.7) { 0 } else { self.rng.below(self.k.ack_delay) };
                        self.after(d, E::Take(e));
                    }
                }
                Ev::Ack { .. } => {
                    if self.eps[e].kind == Kind::Min {
                        let d = if self.rng.chance(0.7) { 0 } else { self.rng.below(self.k.ack_delay) };
                        self.after(d, E::Drain(e));
                    }
                }
                _ => {}
            }
        }
        self.settle(e, h);
    }
    fn settle(&mut self, e: usize, h: u32) {
        let (est, failed) = match self.sim.hs.get(&h) {
            Some(x) => (x.sh.live(), x.sh.fail.is_some()),
            None => return,
        };
        if est && !self.eps[e].est {
            self.eps[e].est = true;
            self.sim.stats.add("endpoints_established", 1);
            let n = self.eps[e].todo;
            let gap = self.k.gap;
            let mut t = self.now + if self.rng.chance(0.5) { 0 } else { self.rng.below(gap * 4) };
            let end = t + gap * (n + 1);
            for _ in 0..n {
                self.at(t, E::Write(e));
                t += self.rng.below(gap * 2);
            }
            if self.rng.chance(self.k.clones) {
                for _ in 0..self.rng.range(1, 3) {
                    let d = self.now + self.rng.below(end - self.now + 1);
                    self.at(d, E::Clone(e));
                }
            }
            if self.rng.chance(self.k.configs) {
                for _ in 0..self.rng.range(1, 4) {
                    let d = self.now + self.rng.below(end - self.now + 1);
                    self.at(d, E::Config(e));
                }
            }
            if self.rng.chance(self.k.drops) {
                let d = self.now + self.rng.below(end - self.now + 1);
                self.at(d, E::DropH(e));
            }
        }
        if failed && self.k.probe && !self.eps[e].probed {
            self.eps[e].probed = true;
            for i in 0..self.rng.range(4, 9) {
                let d = self.rng.below(1 << 12);
                self.after(d, E::Probe(e, i as u32));
            }
        }
    }

    // ------------------------------------------------------------ the loop

    pub fn run_loop(&mut self) -> R {
        while let Some((&key, _)) = self.q.iter().next() {
            let e = self.q.remove(&key).expect("event");
            self.now = key.0;
            if self.steps_left == 0 {
                self.q.clear();
                break;
            }
            self.steps_left -= 1;
            self.event(e)?;
        }
        Ok(())
    }
    fn reader(&mut self, e: usize) -> Option<u32> {
        let r = self.eps[e].readers.clone();
        if r.is_empty() {
            None
        } else {
            Some(*self.rng.pick(&r))
        }
    }
    fn event(&mut self, ev: E) -> R {
        match ev {
            E::Create(e) => {
                let x = self.eps[e].clone();
                if x.gone {
                    return Ok(());
                }
                let p = self.k.ent;
                let ent = if self.rng.chance(p) && !x.kind.is_ref() { self.ent_script(false) } else { vec![] };
                self.go(Step::Create { h: x.h, kind: x.kind, id: x.id, expect: x.expect, cfg: x.cfg, ent })
            }
            E::Connect(e) => {
                let p = self.k.batch;
                if p > 0.0 && matches!(self.eps[e].kind, Kind::Bin | Kind::Ser) && self.eps[e].conn.is_none() {
                    // who answers may well do so with CONNECT and ACK in one go
                    let got = self.sim.hs.get(&self.eps[e].h).map_or(false, |x| x.sh.remote == Remote::Got && x.sh.local == Local::Created);
                    if got && self.eps[e].ack.is_none() && !self.no_format(self.eps[e].h) && self.rng.chance(p) {
                        return self.batch_answer(e);
                    }
                    if e % 2 == 1 && self.eps[e].waits < 8 && !got && self.rng.chance(p) {
                        self.eps[e].waits += 1;
                        let d = self.lat(true) + 1;
                        self.after(d, E::Connect(e));
                        return Ok(());
                    }
                }
                let custom = self.custom();
                let io = self.maybe_io(e, true, custom.map_or(0, |c| c.len) + 150);
                let dg = self.dg();
                let h = self.eps[e].h;
                self.broken(e, h, DgKind::Connect)?;
                if custom.is_some() && self.no_format(h) {
                    // refused without effect, then done properly
                    self.go(Step::Connect { h, custom, dg, io: None })?;
                    self.go(Step::Connect { h, custom: None, dg, io: io.clone() })?;
                } else {
                    self.go(Step::Connect { h, custom, dg, io: io.clone() })?;
                }
                if self.sim.last_emitted {
                    if self.eps[e].conn.is_none() {
                        self.eps[e].conn = Some(dg);
                    }
                    self.send(e, dg, true);
                } else if self.eps[e].conn.is_none() {
                    self.eps[e].hs_dead = true;
                }
                self.settle(e, h);
                Ok(())
            }
            E::Ack(e) => {
                if self.eps[e].hs_dead {
                    return Ok(());
                }
                let custom = self.custom();
                let io = self.maybe_io(e, true, custom.map_or(0, |c| c.len) + 114);
                let dg = self.dg();
                let h = self.eps[e].h;
                let p = self.k.batch;
                let live_after = self.sim.hs.get(&h).map_or(false, |x| {
                    let mut s = x.sh.clone();
                    s.ack(custom.as_ref()).is_ok() && s.live()
                });
                if live_after && self.eps[e].kind != Kind::Min && !self.eps[e].kind.is_ref() && self.eps[e].ack.is_none() && self.rng.chance(p) {
                    return self.batch_write(e, vec![Item { h, what: 1, pay: custom, dg, flush: false }]);
                }
                self.broken(e, h, DgKind::Ack)?;
                if custom.is_some() && self.no_format(h) {
                    self.go(Step::Ack { h, custom, dg, io: None })?;
                    self.go(Step::Ack { h, custom: None, dg, io: io.clone() })?;
                } else {
                    self.go(Step::Ack { h, custom, dg, io: io.clone() })?;
                }
                if self.sim.last_emitted {
                    if self.eps[e].ack.is_none() {
                        self.eps[e].ack = Some(dg);
                    }
                    self.send(e, dg, true);
                } else if self.eps[e].ack.is_none() {
                    self.eps[e].hs_dead = true;
                }
                self.settle(e, h);
                Ok(())
            }
            E::Take(e) => {
                let h = self.eps[e].h;
                self.go(Step::TakeAck { h })?;
                self.react(e, h);
                Ok(())
            }
            E::Drain(e) => {
                let h = self.eps[e].h;
                self.go(Step::Drain { h })?;
                self.react(e, h);
                Ok(())
            }
            E::Write(e) => {
                let w = self.eps[e].writers.clone();
                if w.is_empty() {
                    return Ok(());
                }
                let h = *self.rng.pick(&w);
                if self.k.safe && !self.sim.hs.get(&h).map_or(false, |x| x.sh.live()) {
                    return Ok(());
                }
                let p = self.k.batch;
                if self.rng.chance(p) && !self.eps[e].kind.is_ref() {
                    return self.batch_write(e, vec![]);
                }
                self.broken(e, h, DgKind::User)?;
                let pay = self.pay();
                let io = self.maybe_io(e, false, pay.len + 74);
                let dg = self.dg();
                self.go(Step::Write { h, pay, dg, io })?;
                if self.sim.last_emitted {
                    self.eps[e].sent.push(dg);
                    self.send(e, dg, false);
                }
                self.settle(e, h);
                Ok(())
            }
            E::Deliver { e, h, dg, tries } => self.deliver(e, h, dg, tries),
            E::Clone(e) => {
                let x = self.eps[e].clone();
                let all: Vec<u32> = x.readers.iter().chain(&x.writers).copied().collect();
                if all.is_empty() {
                    return Ok(());
                }
                let from = *self.rng.pick(&all);
                let to = self.hid();
                self.go(Step::Clone { h: from, to })?;
                if self.sim.hs.contains_key(&to) {
                    let was_reader = x.readers.contains(&from);
                    let was_writer = x.writers.contains(&from);
                    let ep = &mut self.eps[e];
                    let two = self.rng.chance(self.k.both_write);
                    match self.rng.below(4) {
                        // new handle writes, old reads
                        0 if was_reader && was_writer => ep.writers.retain(|h| *h != from),
                        // new handle reads, old writes
                        1 if was_reader && was_writer => ep.readers.retain(|h| *h != from),
                        _ => {}
                    }
                    if was_writer && !ep.writers.contains(&from) {
                        ep.writers.push(to);
                    } else if was_reader && !ep.readers.contains(&from) {
                        ep.readers.push(to);
                    } else {
                        if was_reader {
                            ep.readers.push(to);
                        }
                        if was_writer && two {
                            ep.writers.push(to);
                        }
                    }
                }
                Ok(())
            }
            E::Config(e) => {
                let x = self.eps[e].clone();
                let all: Vec<u32> = x.readers.iter().chain(&x.writers).copied().collect();
                if all.is_empty() {
                    return Ok(());
                }
                let h = *self.rng.pick(&all);
                let cfg = self.cfg(x.kind.mode() == Mode::Ser);
                self.go(Step::Config { h, cfg })
            }
            E::DropH(e) => {
                let x = self.eps[e].clone();
                let all: Vec<u32> = x.readers.iter().chain(&x.writers).copied().collect();
                if all.is_empty() {
                    return Ok(());
                }
                let h = *self.rng.pick(&all);
                self.eps[e].readers.retain(|y| *y != h);
                self.eps[e].writers.retain(|y| *y != h);
                self.go(Step::Drop { h })
            }
            E::Attack => {
                for _ in 0..6 {
                    if self.attack()? {
                        break;
                    }
                }
                Ok(())
            }
            E::Kill => self.kill(),
            E::Soup => self.soup(),
            E::Probe(e, i) => self.probe(e, i),
            E::Crash => self.crash(),
            E::Down(e) => self.down(e),
        }
    }
    fn batch_answer(&mut self, e: usize) -> R {
        let h = self.eps[e].h;
        let mut items = vec![];
        for what in 0..2 {
            let mut pay = self.custom();
            if self.rng.chance(0.3) {
                // around the sizes of buffers
                let len = (*self.rng.pick(&[4096u32, 4096, 8192, 16384, 5000, 2048]) + self.rng.below(160) as u32).saturating_sub(120);
                pay = Some(Pay { len, seed: self.rng.next_u64() >> 16, style: 0 });
            }
            let dg = self.dg();
            let flush = self.rng.chance(0.15);
            items.push(Item { h, what, pay, dg, flush });
        }
        self.sim.stats.add("answers_in_one_buffer", 1);
        self.batch_write(e, items)
    }
    /// Several messages through one buffered writer, as an application does that flushes once.
    fn batch_write(&mut self, e: usize, mut items: Vec<Item>) -> R {
        let w = self.eps[e].writers.clone();
        let n = self.rng.range(2, 7);
        let fl = *self.rng.pick(&[0.0, 0.0, 0.3, 0.8]);
        let mut size = items.iter().map(|i| 114 + i.pay.map_or(0, |p| p.len)).sum::<u32>();
        let head = items.clone();
        for _ in 0..n {
            let h = *self.rng.pick(&w);
            if (head.len() == 1 && h == items[0].h) || self.sim.hs.get(&h).map_or(false, |x| x.sh.live()) {
                let pay = self.pay();
                size += pay.len + 74;
                let dg = self.dg();
                let flush = self.rng.chance(fl);
                items.push(Item { h, what: 2, pay: Some(pay), dg, flush });
            }
        }
        let io = self.maybe_io(e, false, size);
        self.go(Step::Batch { io, items })?;
        for dg in self.sim.batch_sent.clone() {
            match head.iter().find(|i| i.dg == dg).map(|i| i.what) {
                Some(0) => {
                    self.eps[e].conn = Some(dg);
                    self.send(e, dg, true);
                }
                Some(_) => {
                    self.eps[e].ack = Some(dg);
                    self.send(e, dg, true);
                }
                None => {
                    self.eps[e].sent.push(dg);
                    self.send(e, dg, false);
                }
            }
        }
        for a in &head {
            let have = if a.what == 0 { self.eps[e].conn } else { self.eps[e].ack };
            if have != Some(a.dg) {
                self.eps[e].hs_dead = true;
            }
        }
        for h in w {
            self.settle(e, h);
        }
        Ok(())
    }
    /// The application hands over a value that cannot be serialised.
    fn broken(&mut self, e: usize, h: u32, kind: DgKind) -> R {
        let alive = self.sim.hs.get(&h).map_or(false, |x| kind != DgKind::User || !self.k.safe || x.sh.live());
        if self.eps[e].kind != Kind::Ser || !alive || !self.rng.chance(0.06) {
            return Ok(());
        }
        let mut pay = self.pay();
        pay.style = 6;
        let io = self.maybe_io(e, kind != DgKind::User, pay.len + 150);
        let dg = self.dg();
        self.sim.stats.add("unserialisable_values", 1);
        self.go(match kind {
            DgKind::Connect => Step::Connect { h, custom: Some(pay), dg, io },
            DgKind::Ack => Step::Ack { h, custom: Some(pay), dg, io },
            _ => Step::Write { h, pay, dg, io },
        })
    }
    fn no_format(&self, h: u32) -> bool {
        self.sim.hs.get(&h).map_or(false, |x| x.sh.kind.mode() == Mode::Ser && !x.sh.cfg.can_serialise())
    }
    /// The process dies: whatever it kept is lost.
    fn down(&mut self, e: usize) -> R {
        let x = self.eps[e].clone();
        if x.gone {
            return Ok(());
        }
        let mut all: Vec<u32> = x.readers.iter().chain(&x.writers).copied().collect();
        all.push(x.h);
        all.sort();
        all.dedup();
        let ep = &mut self.eps[e];
        ep.gone = true;
        ep.hs_dead = true;
        ep.readers.clear();
        ep.writers.clear();
        for h in all {
            if self.sim.hs.contains_key(&h) {
                self.go(Step::Drop { h })?;
            }
        }
        self.sim.stats.add("crashes", 1);
        Ok(())
    }
    /// One side crashes and comes back, the other notices and does the same; what the network still
    /// holds for the old ones may reach the new ones.
    fn crash(&mut self) -> R {
        let c: Vec<usize> = (0..self.eps.len()).filter(|e| !self.eps[*e].gone && self.eps[*e].heir.is_none()).collect();
        if c.is_empty() || self.eps.len() > 12 {
            return Ok(());
        }
        let e = *self.rng.pick(&c);
        let (a, b) = (e - e % 2, e - e % 2 + 1);
        let i = self.eps.len();
        let s = i / 2;
        for k in 0..2 {
            let mut x = self.eps[a + k].clone();
            x.h = self.hid();
            x.peer = i + 1 - k;
            x.sess = s;
            x.readers = vec![x.h];
            x.writers = vec![x.h];
            x.conn = None;
            x.ack = None;
            x.sent = vec![];
            x.est = false;
            x.ack_due = false;
            x.probed = false;
            x.hs_dead = false;
            x.waits = 0;
            x.gone = false;
            x.heir = None;
            x.stall = (0, 0);
            if matches!(x.expect, Expect::Of(_)) {
                x.expect = Expect::Any;
            }
            // a random identity is another one next time
            if self.eps[b - k].id == 255 {
                x.expect = Expect::Any;
            }
            self.eps.push(x);
            self.eps[a + k].heir = Some(i + k);
        }
        self.down(e)?;
        let other = a + b - e;
        let d = self.rng.below(self.k.start_spread * 2);
        self.after(d, E::Down(other));
        self.schedule_session(i, i + 1);
        Ok(())
    }
    fn deliver(&mut self, e: usize, h: u32, dg: u32, tries: u32) -> R {
        if let (true, Some(n)) = (self.eps[e].gone, self.eps[e].heir) {
            let h2 = self.eps[n].h;
            if self.rng.chance(0.4) && self.sim.hs.contains_key(&h2) {
                self.sim.stats.add("datagrams_for_the_crashed", 1);
                return self.deliver(n, h2, dg, tries);
            }
            return Ok(());
        }
        if !self.sim.hs.contains_key(&h) {
            if h == self.eps[e].h && !self.plan.iter().any(|s| matches!(s.s, Step::Create { h: x, .. } if x == h)) && tries < 60 {
                // not created yet: the network keeps it
                let d = self.lat(true) + self.k.start_spread / 4 + 1;
                self.after(d, E::Deliver { e, h, dg, tries: tries + 1 });
            }
            return Ok(());
        }
        let bytes = match self.sim.dgs.get(&dg) {
            Some(d) => d.bytes.clone(),
            None => return Ok(()),
        };
        if self.k.safe {
            match self.preview(h, &bytes) {
                Some((_, _, true)) => {
                    if tries < 60 {
                        let d = self.lat(true) + (1 << tries.min(22));
                        self.after(d, E::Deliver { e, h, dg, tries: tries + 1 });
                        self.sim.stats.add("net_delayed", 1);
                    }
                    return Ok(());
                }
                Some((Exp::Events(v), s, _)) if v.is_empty() && s.kind == Kind::Min => {}
                _ => {}
            }
        }
        self.go(Step::Deliver { h, dg, m: vec![] })?;
        self.react(e, h);
        let p = self.k.min_extra;
        if self.eps[e].kind == Kind::Min && self.rng.chance(p) {
            let d = self.rng.below(1 << 10);
            let ev = if self.rng.chance(0.5) { E::Take(e) } else { E::Drain(e) };
            self.after(d, ev);
        }
        Ok(())
    }

    // ------------------------------------------------------------ attackers

    fn pool(&self) -> Vec<u32> {
        self.sim.dgs.keys().copied().collect()
    }
    fn mut_for(&mut self, len: usize, kind: DgKind) -> Mut {
        let pool = self.pool();
        let r = &mut self.rng;
        let n = len.max(1) as u64;
        let p = match (r.below(4), kind) {
            // headers and trailers are where it matters
            (0, _) => r.below(n.min(100)),
            (1, _) => n - 1 - r.below(n.min(80)),
            _ => r.below(n),
        } as u32;
        match r.below(20) {
            0..=8 => Mut::Flip(p, r.below(8) as u8),
            9 => Mut::Set(p, *r.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0xff])),
            10 => Mut::Cut(r.below(n) as u32),
            11 => Mut::CutEnd(1 + r.skewed(70) as u32),
            12 => Mut::Extend(r.next_u64() >> 12, 1 + r.skewed(100) as u32),
            13 => Mut::Remove(p, 1 + r.skewed(40) as u32),
            14 => Mut::Insert(p, r.next_u64() >> 12, 1 + r.skewed(40) as u32),
            15 => Mut::Splice(*r.pick(&pool), p),
            16 | 17 => Mut::Tail(*r.pick(&pool), *r.pick(&[16u32, 32, 64, 1, 70])),
            18 => Mut::U64(8, *r.pick(&[0u64, 1, 2, 10, 34, 70, 1 << 16, 1 << 31, 1 << 32, u64::MAX, u64::MAX - 15, 1 << 63])),
            _ => Mut::U64(p, r.next_u64()),
        }
    }
    fn raw_bytes(&mut self) -> Vec<u8> {
        let r = &mut self.rng;
        let mut v = vec![];
        if r.chance(0.75) {
            v.extend_from_slice(&wire::MAGIC);
            if r.chance(0.9) {
                v.extend_from_slice(&[0, 0, 0, if r.chance(0.85) { 1 } else { r.below(4) as u8 }]);
                let l = match r.below(6) {
                    0 => u64::MAX - r.below(40),
                    1 => 1 << r.below(64),
                    2 => r.below(4),
                    _ => r.below(200),
                };
                v.extend_from_slice(&l.to_be_bytes());
                v.extend_from_slice(&[0, r.below(4) as u8]);
            }
        }
        let n = if r.chance(0.05) { r.below(20_000) } else { r.skewed(300) };
        for _ in 0..n {
            v.push(r.next_u64() as u8);
        }
        if r.chance(0.3) {
            let c = r.below(v.len() as u64 + 1) as usize;
            v.truncate(c);
        }
        v
    }
    /// One hostile datagram. Ok(false): nothing suitable was found.
    fn attack(&mut self) -> Result<bool, Viol> {
        let live: Vec<usize> = (0..self.eps.len())
            .filter(|e| {
                !self.eps[*e].readers.is_empty()
                    && self.eps[*e].readers.iter().any(|h| self.sim.hs.get(h).map_or(false, |x| !x.sh.kind.is_ref() && x.sh.fail.is_none()))
            })
            .collect();
        if live.is_empty() {
            return Ok(false);
        }
        let e = *self.rng.pick(&live);
        let h = match self.reader(e) {
            Some(h) => h,
            None => return Ok(false),
        };
        let peer = self.eps[e].peer;
        let aw = self.k.aw;
        let total: u32 = aw.iter().sum();
        let mut x = self.rng.below(u64::from(total.max(1))) as u32;
        let mut which = 0;
        for (i, w) in aw.iter().enumerate() {
            if x < *w {
                which = i;
                break;
            }
            x -= w;
        }
        // datagrams meant for this endpoint, datagrams of others
        let mut mine: Vec<u32> = self.eps[peer].sent.clone();
        mine.extend(self.eps[peer].conn);
        mine.extend(self.eps[peer].ack);
        let pool = self.pool();
        let dg = self.dg();
        let mut made = true;
        match which {
            0 => {
                if mine.is_empty() {
                    return Ok(false);
                }
                let from = *self.rng.pick(&mine);
                let (len, kind) = match self.sim.dgs.get(&from) {
                    Some(d) => (d.bytes.len(), d.kind),
                    None => return Ok(false),
                };
                let mut m = vec![];
                for _ in 0..*self.rng.pick(&[1, 1, 1, 2, 3]) {
                    m.push(self.mut_for(len, kind));
                }
                self.go(Step::Alter { dg, from, m })?;
            }
            1 => {
                // biased to old ones
                if mine.is_empty() {
                    return Ok(false);
                }
                let d = if self.rng.chance(0.4) { mine[0] } else { *self.rng.pick(&mine) };
                return self.inject(e, h, d);
            }
            2 => {
                let other: Vec<u32> = self
                    .eps
                    .iter()
                    .filter(|x| x.sess != self.eps[e].sess)
                    .flat_map(|x| x.sent.iter().copied().chain(x.conn).chain(x.ack))
                    .collect();
                if other.is_empty() {
                    return Ok(false);
                }
                let d = *self.rng.pick(&other);
                return self.inject(e, h, d);
            }
            3 => {
                let own: Vec<u32> = self.eps[e].conn.iter().chain(self.eps[e].ack.iter()).copied().collect();
                if own.is_empty() {
                    return Ok(false);
                }
                let d = *self.rng.pick(&own);
                return self.inject(e, h, d);
            }
            4 | 5 | 9 => {
                let pid = self.eps[peer].id % 8;
                let r = &mut self.rng;
                let evil = *r.pick(&[6u8, 7, 5, self.eps[e].id % 8]);
                let sign = match r.below(8) {
                    0..=2 => Signer::Id(evil),
                    3 => Signer::Junk(r.next_u64() >> 12),
                    4 if !pool.is_empty() => Signer::Copy(*r.pick(&pool)),
                    5 => Signer::Zero(*r.pick(&[0u32, 63, 64, 65])),
                    _ => Signer::Id(if which == 9 { pid } else { evil }),
                };
                let sign = if which == 9 { Signer::Id(pid) } else { sign };
                let eps: Vec<u32> = self.eps.iter().map(|x| x.h).collect();
                let mut epk = match r.below(8) {
                    0 => Epk::Low(r.below(6) as u8),
                    1..=2 => Epk::Own(r.below(4)),
                    3 => Epk::Of(self.eps[e].h),
                    4 => Epk::Of(self.eps[peer].h),
                    5 => Epk::Bytes(r.next_u64() >> 12),
                    _ => Epk::Of(*r.pick(&eps)),
                };
                let custom: Vec<u8> = match r.below(4) {
                    0 | 1 => vec![],
                    2 => tiny(r),
                    _ => (0..r.below(60)).map(|_| r.next_u64() as u8).collect(),
                };
                let ack = which == 5 || (which == 9 && r.chance(0.5));
                if ack && r.chance(0.6) {
                    epk = Epk::Of(self.eps[e].h);
                }
                let claim = match r.below(3) {
                    0 => evil,
                    _ => pid,
                };
                let claim = if which == 9 { pid } else { claim };
                let pre = if which == 9 || r.chance(0.1) {
                    if r.chance(0.3) {
                        vec![]
                    } else {
                        match r.below(9) {
                            6..=8 => vec![Mut::Flip(18 + r.below(if ack { 32 } else { 68 }) as u32, r.below(8) as u8)],
                            0 => vec![Mut::Set(7, r.below(5) as u8)],
                            1 => vec![Mut::Set(*r.pick(&[4u32, 5, 6]), 1 + r.below(3) as u8)],
                            2 => vec![Mut::Set(17, *r.pick(&[0u8, 1, 2, 3, 255]))],
                            3 => vec![Mut::U64(8, *r.pick(&[0u64, 33, 34, 69, 70, 71, 1 << 40, u64::MAX]))],
                            4 => vec![Mut::Set(16, 1)],
                            _ => vec![Mut::Set(*r.pick(&[50u32, 51, 52, 53]), 1 + r.below(2) as u8)],
                        }
                    }
                } else {
                    vec![]
                };
                let s = if ack {
                    Step::CraftAck { dg, epk, sign, custom, pre }
                } else {
                    let algo = if r.chance(0.9) { 0 } else { r.range(1, 255) as u8 };
                    Step::CraftConnect { dg, epk, claim, sign, custom, algo, pre }
                };
                self.go(s)?;
            }
            6 => {
                let bytes = if self.rng.chance(0.3) { self.clear_user(e) } else { self.raw_bytes() };
                self.go(Step::CraftRaw { dg, bytes })?;
            }
            7 => {
                if pool.len() < 2 {
                    return Ok(false);
                }
                let a = *self.rng.pick(&pool);
                let b = *self.rng.pick(&pool);
                let n = self.sim.dgs.get(&a).map_or(1, |d| d.bytes.len()) as u64;
                let at = match self.rng.below(3) {
                    0 => n.saturating_sub(64),
                    1 => *self.rng.pick(&[16u64, 18, 50, 54, 86]),
                    _ => self.rng.below(n + 1),
                } as u32;
                self.go(Step::Alter { dg, from: a, m: vec![Mut::Splice(b, at)] })?;
            }
            _ => {
                let ph = self.eps[peer].h;
                if !self.eps[peer].kind.is_ref() || !self.sim.hs.get(&ph).map_or(false, |x| x.sh.sess().is_some()) {
                    return Ok(false);
                }
                let body = self.evil_body(e);
                self.go(Step::CraftUser { dg, h: ph, body })?;
                made = self.sim.dgs.contains_key(&dg);
            }
        }
        if !made {
            return Ok(false);
        }
        if (4..=5).contains(&which) && self.rng.chance(self.k.flood) {
            // the same again and again
            for i in 0..1 << self.rng.range(3, 9) {
                if !self.inject(e, h, dg)? {
                    return Ok(i > 0);
                }
                self.sim.stats.add("floods_of_forgeries", u64::from(i == 0));
            }
            return Ok(true);
        }
        self.inject(e, h, dg)
    }
    /// A user message no key was used for, otherwise as the target would have it.
    fn clear_user(&mut self, e: usize) -> Vec<u8> {
        let (mode, mut cfg) = (self.eps[e].kind.mode(), self.eps[e].cfg);
        cfg.fmt = 2 + self.rng.below(3) as u8;
        let mut pay = self.pay();
        pay.len %= 600;
        set_shape(self.sim.app);
        let body = refend::encode_body(mode, &cfg, &pay).unwrap_or_default();
        let next = self.sim.hs.get(&self.eps[e].h).map_or(0, |x| x.sh.next);
        let mut b = wire::user_plain(next + self.rng.skewed(4), &body);
        match self.rng.below(6) {
            0 => {
                let n = b.len();
                b.truncate(n - 32);
            }
            1 => {
                let n = b.len();
                b[n - 1] ^= 1;
            }
            _ => {}
        }
        b
    }
    fn evil_body(&mut self, e: usize) -> Body {
        let pay = self.pay();
        let pool = self.pool();
        let next = self.sim.hs.get(&self.eps[e].h).map_or(0, |x| x.sh.next);
        let r = &mut self.rng;
        let nonce = match r.below(6) {
            0 => next.saturating_sub(1),
            1 => next + r.below(4),
            2 => u64::MAX - r.below(3),
            3 => 1 << r.below(64),
            _ => next + r.below(300),
        };
        match r.below(11) {
            0 => Body::User { nonce, pay },
            8 | 9 => Body::UserRaw { nonce, body: tiny(r) },
            1 => {
                let n = r.below(200);
                Body::UserRaw { nonce, body: (0..n).map(|_| r.next_u64() as u8).collect() }
            }
            2 => {
                // deflate headers with hostile content
                let mut b = vec![*r.pick(&[0u8, 1, 2, 3, 4, 5, 0x78, 0x63, 0xed])];
                for _ in 0..r.below(60) {
                    b.push(r.next_u64() as u8);
                }
                Body::UserRaw { nonce, body: b }
            }
            3 => Body::Bomb {
                nonce,
                n: *r.pick(&[10_000u32, 100_000, 1_000_000, 4_000_000, 4096]),
                fmt: *r.pick(&[0u8, 2, 3, 4]),
            },
            4 => Body::BadHash { nonce, pay, how: r.next_u64() as u8 },
            5 => Body::BadLen { nonce, pay, len: *r.pick(&[0u64, 1, 2, 3, 5, 8, 9, 9, 10, 11, 13, 1 << 20, 1 << 32, u64::MAX, u64::MAX - 15]) },
            6 => Body::Twist { nonce, pay, at: r.below(80) as u32, to: *r.pick(&[0u8, 1, 2, 3, 0xff, 0x80]) },
            7 if !pool.is_empty() => Body::Inner { dg: *r.pick(&pool) },
            _ => {
                let n = *r.pick(&[0u64, 1, 15, 16, 17, 18, 26, 57, 58, 59, 90]);
                let mut v: Vec<u8> = wire::MAGIC.to_vec();
                v.extend_from_slice(&[0, 0, 0, 1]);
                while (v.len() as u64) < n {
                    v.push(if r.chance(0.6) { 0 } else { r.next_u64() as u8 });
                }
                v.truncate(n as usize);
                Body::Plain(v)
            }
        }
    }
    fn inject(&mut self, e: usize, h: u32, dg: u32) -> Result<bool, Viol> {
        let bytes = match self.sim.dgs.get(&dg) {
            Some(d) => d.bytes.clone(),
            None => return Ok(false),
        };
        let (exp, after, worse) = match self.preview(h, &bytes) {
            Some(x) => x,
            None => return Ok(false),
        };
        if self.sim.hs.get(&h).map_or(true, |x| x.sh.kind.is_ref()) {
            return Ok(false);
        }
        let ok = match (self.k.harm, &exp) {
            (Harm::Any, Exp::Reject(Why::Reflected)) => false,
            (Harm::Any, _) => true,
            (_, Exp::Reject(Why::Reflected)) => false,
            (_, Exp::Reject(_)) => !worse,
            (Harm::Hold, Exp::Events(v)) => v.is_empty() && !worse && after.held_ack.is_some(),
            _ => false,
        };
        if !ok {
            return Ok(false);
        }
        self.sim.stats.add("attacks_delivered", 1);
        self.go(Step::Deliver { h, dg, m: vec![] })?;
        self.react(e, h);
        Ok(true)
    }

    /// Make some endpoint's connection fail in one of the ways the protocol knows.
    fn kill(&mut self) -> R {
        let live: Vec<usize> = (0..self.eps.len())
            .filter(|e| self.sim.hs.get(&self.eps[*e].h).map_or(false, |x| !x.sh.kind.is_ref() && x.sh.fail.is_none()))
            .collect();
        if live.is_empty() {
            return Ok(());
        }
        let e = *self.rng.pick(&live);
        let (h, peer) = (self.eps[e].h, self.eps[e].peer);
        let dg = self.dg();
        self.sim.stats.add("kills", 1);
        match self.rng.below(11) {
            0 => {
                let bytes = vec![];
                self.go(Step::CraftRaw { dg, bytes })?;
                self.go(Step::Deliver { h, dg, m: vec![] })?;
            }
            1 => {
                let bytes = self.raw_bytes();
                self.go(Step::CraftRaw { dg, bytes })?;
                self.go(Step::Deliver { h, dg, m: vec![] })?;
            }
            2 => {
                // altered user message
                if let Some(d) = self.eps[peer].sent.first().copied() {
                    let m = vec![Mut::Flip(self.rng.below(1 << 16) as u32, self.rng.below(8) as u8)];
                    self.go(Step::Deliver { h, dg: d, m })?;
                }
            }
            3 => {
                // clear user message
                let mut b = wire::user_plain(self.rng.below(4), b"clear text user message");
                if self.rng.chance(0.5) {
                    let n = b.len();
                    b.truncate(n - 32);
                }
                self.go(Step::CraftRaw { dg, bytes: b })?;
                self.go(Step::Deliver { h, dg, m: vec![] })?;
            }
            4 => {
                if let Some(d) = self.eps[peer].conn {
                    self.go(Step::Deliver { h, dg: d, m: vec![] })?;
                    self.react(e, h);
                    self.go(Step::Deliver { h, dg: d, m: vec![] })?;
                }
            }
            5 => {
                if let Some(d) = self.eps[peer].ack {
                    self.go(Step::Deliver { h, dg: d, m: vec![] })?;
                    self.react(e, h);
                    self.go(Step::Deliver { h, dg: d, m: vec![] })?;
                }
            }
            6 => {
                // user message before its time
                if let Some(d) = self.eps[peer].sent.first().copied() {
                    self.go(Step::Deliver { h, dg: d, m: vec![] })?;
                } else {
                    let n = self.rng.range(40, 120) as usize;
                    let mut bytes = vec![0u8; n];
                    for b in bytes.iter_mut() {
                        *b = self.rng.next_u64() as u8;
                    }
                    self.go(Step::CraftRaw { dg, bytes })?;
                    self.go(Step::Deliver { h, dg, m: vec![] })?;
                }
            }
            7 => {
                let id = self.eps[peer].id % 8;
                let n = self.rng.below(6) as u8;
                self.go(Step::CraftConnect { dg, epk: Epk::Low(n), claim: id, sign: Signer::Id(id), custom: vec![], algo: 0, pre: vec![] })?;
                self.go(Step::Deliver { h, dg, m: vec![] })?;
            }
            8 | 9 => {
                // write before the negotiation completes / failing write
                let pay = self.pay();
                let io = if self.rng.chance(0.7) { Some(self.io(true, pay.len.min(60))) } else { None };
                self.go(Step::Write { h, pay, dg, io })?;
                if self.sim.last_emitted {
                    self.eps[e].sent.push(dg);
                    self.send(e, dg, false);
                }
            }
            _ => {
                let ph = self.eps[peer].h;
                if self.eps[peer].kind.is_ref() {
                    let body = match self.rng.below(3) {
                        0 => Body::Inner { dg: self.eps[peer].conn.unwrap_or(0) },
                        1 => Body::Plain(vec![1, 2, 3]),
                        _ => Body::Twist { nonce: 0, pay: Pay { len: 3, seed: 1, style: 0 }, at: 7, to: 9 },
                    };
                    self.go(Step::CraftUser { dg, h: ph, body })?;
                    self.go(Step::Deliver { h, dg, m: vec![] })?;
                }
            }
        }
        self.react(e, h);
        Ok(())
    }
    /// After a failure nothing may work any more.
    fn probe(&mut self, e: usize, i: u32) -> R {
        let x = self.eps[e].clone();
        let handles: Vec<u32> = x
            .readers
            .iter()
            .chain(&x.writers)
            .copied()
            .filter(|h| self.sim.hs.get(h).map_or(false, |x| x.sh.fail.is_some()))
            .collect();
        if handles.is_empty() {
            return Ok(());
        }
        let h = *self.rng.pick(&handles);
        let dg = self.dg();
        self.sim.stats.add("probes_after_failure", 1);
        let p = &self.eps[x.peer];
        let genuine: Vec<u32> = p.conn.iter().chain(p.ack.iter()).chain(p.sent.iter()).copied().collect();
        match (i + self.rng.below(3) as u32) % 9 {
            0 => {
                let pay = self.pay();
                self.go(Step::Write { h, pay, dg, io: None })?;
            }
            1 => {
                let custom = self.custom();
                self.go(Step::Connect { h, custom, dg, io: None })?;
            }
            2 => {
                let custom = self.custom();
                self.go(Step::Ack { h, custom, dg, io: None })?;
            }
            3 => {
                let to = self.hid();
                self.go(Step::Clone { h, to })?;
            }
            4 => {
                self.go(Step::TakeAck { h })?;
            }
            5 => {
                self.go(Step::Drain { h })?;
            }
            6 => {
                // the peer is a genuine one and goes on
                if let Some(pw) = self.eps[x.peer].writers.first().copied() {
                    if self.sim.hs.get(&pw).map_or(false, |x| x.sh.live()) {
                        let pay = self.pay();
                        self.go(Step::Write { h: pw, pay, dg, io: None })?;
                        if self.sim.last_emitted {
                            self.go(Step::Deliver { h, dg, m: vec![] })?;
                        }
                    }
                }
            }
            _ => {
                if !genuine.is_empty() {
                    let d = *self.rng.pick(&genuine);
                    self.go(Step::Deliver { h, dg: d, m: vec![] })?;
                }
            }
        }
        Ok(())
    }
    /// Calls out of turn.
    fn soup(&mut self) -> R {
        let hs: Vec<u32> = self.sim.hs.iter().filter(|(_, x)| !x.sh.kind.is_ref()).map(|(h, _)| *h).collect();
        if hs.is_empty() {
            return Ok(());
        }
        let h = *self.rng.pick(&hs);
        let e = match self.eps.iter().position(|x| x.h == h || x.readers.contains(&h) || x.writers.contains(&h)) {
            Some(e) => e,
            None => return Ok(()),
        };
        let safe = self.k.safe;
        let dg = self.dg();
        let sh = self.sim.hs[&h].sh.clone();
        match self.rng.below(10) {
            0 | 1 => {
                // a CONNECT on a handle that has sent one; or a first one, early
                let custom = self.custom();
                self.go(Step::Connect { h, custom, dg, io: None })?;
                if self.sim.last_emitted {
                    self.eps[e].conn = Some(dg);
                    self.send(e, dg, true);
                }
            }
            2 | 3 => {
                let custom = self.custom();
                self.go(Step::Ack { h, custom, dg, io: None })?;
                if self.sim.last_emitted {
                    self.eps[e].ack = Some(dg);
                    self.send(e, dg, true);
                }
            }
            4 => {
                let to = self.hid();
                self.go(Step::Clone { h, to })?;
            }
            5 => {
                if !(safe && sh.held_ack.is_some() && sh.pinned.is_none()) {
                    self.go(Step::TakeAck { h })?;
                }
            }
            6 => {
                if !(safe && !sh.est && !sh.early.is_empty()) {
                    self.go(Step::Drain { h })?;
                }
            }
            7 => {
                if !safe || sh.live() {
                    let pay = self.pay();
                    self.go(Step::Write { h, pay, dg, io: None })?;
                    if self.sim.last_emitted {
                        self.eps[e].sent.push(dg);
                        self.send(e, dg, false);
                    }
                }
            }
            8 => {
                let ser = self.eps[e].kind.mode() == Mode::Ser;
                let cfg = self.cfg(ser);
                self.go(Step::Config { h, cfg })?;
            }
            _ => {
                let pool = self.pool();
                if !pool.is_empty() && !safe {
                    let d = *self.rng.pick(&pool);
                    if !matches!(self.sim.dgs.get(&d).and_then(|d| self.preview(h, &d.bytes)), Some((Exp::Reject(Why::Reflected), _, _))) {
                        self.go(Step::Deliver { h, dg: d, m: vec![] })?;
                    }
                }
            }
        }
        self.react(e, h);
        Ok(())
    }

    // ------------------------------------------------------------ scenarios

    /// Sessions, the events of the knobs, and at the end a quiet network in which everything alive must work.
    pub fn general(&mut self) -> R {
        for _ in 0..self.k.sessions {
            let (a, b) = self.add_session();
            self.schedule_session(a, b);
        }
        let span = self.k.start_spread * 4 + self.k.ack_delay + self.k.hs_lat.1 * 2 + self.k.gap * self.k.writes.1;
        let (lo, hi) = self.k.attacks;
        for _ in 0..self.rng.range(lo, hi) {
            let t = self.rng.below(span);
            self.at(t, E::Attack);
        }
        for _ in 0..self.k.crashes {
            let t = self.rng.below(span * 2);
            self.at(t, E::Crash);
        }
        for _ in 0..self.k.kills {
            let t = self.rng.below(span * 2);
            self.at(t, E::Kill);
        }
        let n = (self.k.soup * 20.0) as u64;
        for _ in 0..n {
            let t = self.rng.below(span);
            self.at(t, E::Soup);
        }
        self.run_loop()?;
        self.quiet()?;
        if self.k.observe {
            self.go(Step::Observe)?;
        }
        Ok(())
    }
    /// Faults have stopped: whatever the model says is alive must exchange messages both ways.
    pub fn quiet(&mut self) -> R {
        self.now += 1_000_000;
        self.k.safe = true;
        for e in 0..self.eps.len() {
            if self.eps[e].kind == Kind::Min {
                let h = self.eps[e].h;
                let ok = self.sim.hs.get(&h).map_or(false, |x| x.sh.live());
                if ok {
                    self.go(Step::TakeAck { h })?;
                    self.go(Step::Drain { h })?;
                }
            }
        }
        for round in 0..2 {
            for e in 0..self.eps.len() {
                let p = self.eps[e].peer;
                for w in self.eps[e].writers.clone() {
                    if !self.sim.hs.get(&w).map_or(false, |x| x.sh.live()) {
                        continue;
                    }
                    if self.no_format(w) {
                        continue;
                    }
                    let pay = Pay { len: 20 + round, seed: u64::from(w) * 7 + u64::from(round), style: 0 };
                    let dg = self.dg();
                    self.go(Step::Write { h: w, pay, dg, io: None })?;
                    if !self.sim.last_emitted {
                        continue;
                    }
                    self.eps[e].sent.push(dg);
                    for h in self.eps[p].readers.clone() {
                        let bytes = self.sim.dgs[&dg].bytes.clone();
                        match self.preview(h, &bytes) {
                            Some((_, _, worse)) if !worse => {
                                self.sim.stats.add("pings", 1);
                                self.go(Step::Deliver { h, dg, m: vec![] })?;
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn both_up(&self, a: usize, b: usize) -> bool {
        [a, b].iter().all(|e| self.sim.hs.get(&self.eps[*e].h).map_or(false, |x| x.sh.live()))
    }
    /// One session, established in some order, without user data.
    fn establish(&mut self) -> Result<(usize, usize), Viol> {
        let (a, b) = self.add_session();
        self.eps[a].todo = 0;
        self.eps[b].todo = 0;
        self.schedule_session(a, b);
        self.run_loop()?;
        Ok((a, b))
    }

    // reordering window and long sessions
    pub fn window(&mut self, deep: bool) -> R {
        let (a, b) = self.establish()?;
        if !self.both_up(a, b) {
            return Ok(());
        }
        let (wa, rb) = (self.eps[a].h, self.eps[b].h);
        let rounds = if deep { self.rng.range(1, 8) } else { self.rng.range(1, 2) };
        let mut over = self.rng.chance(0.5);
        if self.rng.chance(0.2) {
            // a clone takes over reading, with whatever is waiting
            over = false;
        }
        for round in 0..rounds {
            let edge = self.rng.below(4);
            // how many wait at the most
            let n = match edge {
                0 => 10_000,
                1 => self.rng.range(9_990, 10_000),
                2 => self.rng.range(1, 300),
                _ => self.rng.range(1_000, 10_000),
            } as u32;
            let len = *self.rng.pick(&[0u32, 1, 8, 30]);
            let missing = self.rng.range(1, 3) as u32;
            let d = self.dgs(n + missing);
            self.go(Step::WriteMany { h: wa, n: n + missing, dg: d, len })?;
            let order = *self.rng.pick(&[0u64, 1, 2]);
            let order = if order == 2 { self.rng.next_u64() >> 20 | 2 } else { order };
            self.go(Step::DeliverMany { h: rb, dg: d + missing, n, order })?;
            self.sim.stats.add("window_rounds", 1);
            let last = round + 1 == rounds;
            if self.rng.chance(0.3) {
                // replays of waiting messages
                let k = self.rng.below(u64::from(n)) as u32;
                self.go(Step::Deliver { h: rb, dg: d + missing + k, m: vec![] })?;
            }
            if last && over {
                // fill up, then one too many
                let have = self.sim.hs[&rb].sh.orphans.len() as u32;
                let more = 10_000u32.saturating_sub(have);
                let x = self.dgs(more + 3);
                self.go(Step::WriteMany { h: wa, n: more + 3, dg: x, len: 1 })?;
                if more > 0 {
                    self.go(Step::DeliverMany { h: rb, dg: x, n: more, order: 0 })?;
                }
                self.sim.stats.add("window_exactly_full", 1);
                if self.rng.chance(0.5) {
                    // replays when full must not count
                    self.go(Step::Deliver { h: rb, dg: x, m: vec![] })?;
                }
                let mut rb = rb;
                let mut other = None;
                if self.rng.chance(0.5) {
                    // a clone with a full window
                    let to = self.hid();
                    self.go(Step::Clone { h: rb, to })?;
                    if self.sim.hs.contains_key(&to) {
                        self.sim.stats.add("window_cloned_full", 1);
                        other = Some(to);
                        if self.rng.chance(0.5) {
                            other = Some(rb);
                            rb = to;
                        }
                    }
                }
                if self.rng.chance(0.6) {
                    self.sim.stats.add("window_exceeded", 1);
                    self.go(Step::Deliver { h: rb, dg: x + more, m: vec![] })?;
                    if let Some(o) = other {
                        // it is not concerned
                        self.go(Step::Deliver { h: o, dg: d, m: vec![] })?;
                        self.go(Step::Deliver { h: o, dg: x, m: vec![] })?;
                    }
                    self.react(b, rb);
                    for i in 0..5 {
                        self.probe(b, i)?;
                    }
                    self.go(Step::Deliver { h: rb, dg: d, m: vec![] })?;
                    self.go(Step::Deliver { h: rb, dg: x, m: vec![] })?;
                    return self.run_loop();
                }
            }
            if self.rng.chance(0.2) {
                let to = self.hid();
                self.go(Step::Clone { h: rb, to })?;
                if self.sim.hs.contains_key(&to) {
                    let k = self.rng.below(u64::from(n)) as u32;
                    self.go(Step::Deliver { h: to, dg: d + missing + k, m: vec![] })?;
                    if self.rng.chance(0.5) {
                        self.go(Step::DeliverMany { h: to, dg: d, n: missing, order: 1 })?;
                        self.go(Step::Deliver { h: to, dg: d + missing + k, m: vec![] })?;
                    }
                    self.go(Step::Drop { h: to })?;
                }
            }
            // fill the gaps
            let order = self.rng.below(2);
            self.go(Step::DeliverMany { h: rb, dg: d, n: missing, order })?;
            let k = self.rng.below(u64::from(n + missing)) as u32;
            self.go(Step::Deliver { h: rb, dg: d + k, m: vec![] })?;
            if self.rng.chance(0.5) {
                self.go(Step::Deliver { h: rb, dg: d, m: vec![] })?;
                self.go(Step::Deliver { h: rb, dg: d + n + missing - 1, m: vec![] })?;
            }
        }
        self.quiet()
    }
    /// More messages than small counters hold, in order and with replays of very old ones.
    pub fn long(&mut self, deep: bool) -> R {
        let (a, b) = self.establish()?;
        if !self.both_up(a, b) {
            return Ok(());
        }
        let total: u32 = if deep { 140_000 } else { 67_000 };
        let both = self.rng.chance(0.2);
        for (from, to) in [(a, b), (b, a)].iter().take(if both { 2 } else { 1 }) {
            let (mut w, mut r) = (self.eps[*from].h, self.eps[*to].h);
            let mut olds: Vec<u32> = vec![];
            let mut left = total;
            while left > 0 {
                let n = (self.rng.range(2_000, 9_000) as u32).min(left);
                left -= n;
                let d = self.dgs(n);
                self.go(Step::WriteMany { h: w, n, dg: d, len: 0 })?;
                let order = *self.rng.pick(&[0u64, 0, 1, 77]);
                self.go(Step::DeliverMany { h: r, dg: d, n, order })?;
                olds.push(d + self.rng.below(u64::from(n)) as u32);
                olds.push(d);
                for _ in 0..self.rng.range(1, 4) {
                    let o = *self.rng.pick(&olds);
                    self.go(Step::Deliver { h: r, dg: o, m: vec![] })?;
                }
                if self.rng.chance(0.1) {
                    // a clone goes on with all that happened so far
                    let writes = self.rng.chance(0.5);
                    let c = self.hid();
                    self.go(Step::Clone { h: if writes { w } else { r }, to: c })?;
                    if self.sim.hs.contains_key(&c) {
                        let old = std::mem::replace(if writes { &mut w } else { &mut r }, c);
                        if self.rng.chance(0.5) {
                            self.go(Step::Drop { h: old })?;
                        }
                        let o = *self.rng.pick(&olds);
                        self.go(Step::Deliver { h: r, dg: o, m: vec![] })?;
                    }
                }
            }
            for o in olds {
                self.go(Step::Deliver { h: r, dg: o, m: vec![] })?;
            }
        }
        self.sim.stats.add("long_sessions", 1);
        self.quiet()
    }
    /// Sizes around the limits that big messages meet.
    fn giant_len(&mut self, mode: Mode) -> u32 {
        let top = if mode == Mode::Ser { 2 } else { *self.rng.pick(&[4u64, 9, 17, 17, 17, 34]) };
        let at = match self.rng.below(4) {
            0 => self.rng.range(1 << 20, top << 20),
            1 | 2 => (top - 1) << 20,
            _ => 1 << self.rng.range(20, 19 + u64::from(64 - (top - 1).leading_zeros())),
        };
        (at + *self.rng.pick(&[0, 1, 2, 100, 5000])).saturating_sub(*self.rng.pick(&[0u64, 0, 0, 1, 16, 26, 58, 74, 10])) as u32
    }
    /// Messages of many megabytes.
    pub fn giant(&mut self) -> R {
        let mode = *self.rng.pick(&[Mode::Raw, Mode::Zip, Mode::Zip, Mode::Ser]);
        self.k.only_mode = Some(mode);
        let (a, b) = self.add_session();
        for e in [a, b] {
            if matches!(self.eps[e].expect, Expect::Of(_)) {
                self.eps[e].expect = Expect::Any;
            }
            self.event(E::Create(e))?;
        }
        let hs = [self.eps[a].h, self.eps[b].h];
        let slot = self.rng.below(6);
        let mut pays = vec![];
        for i in 0..4 {
            pays.push(if i == slot {
                let mut p = self.pay();
                p.len = self.giant_len(mode);
                Some(p)
            } else {
                self.custom()
            });
        }
        let d: Vec<u32> = (0..4).map(|_| self.dg()).collect();
        for i in 0..2 {
            self.go(Step::Connect { h: hs[i], custom: pays[i], dg: d[i], io: None })?;
        }
        for i in 0..2 {
            self.go(Step::Deliver { h: hs[i], dg: d[1 - i], m: vec![] })?;
        }
        for i in 0..2 {
            self.go(Step::Ack { h: hs[i], custom: pays[2 + i], dg: d[2 + i], io: None })?;
        }
        let n = if slot < 4 { 1 } else { self.rng.range(1, 3) };
        let mut wait: Vec<(usize, u32)> = vec![];
        for i in 0..2 {
            self.go(Step::Deliver { h: hs[i], dg: d[3 - i], m: vec![] })?;
            if i == 0 && self.rng.chance(0.3) && self.sim.hs[&hs[0]].sh.live() {
                // overtakes the ACK
                let mut pay = self.pay();
                pay.len = self.giant_len(mode);
                let dg = self.dg();
                self.go(Step::Write { h: hs[0], pay, dg, io: None })?;
                self.go(Step::Deliver { h: hs[1], dg, m: vec![] })?;
            }
        }
        for i in 0..2 {
            if self.eps[[a, b][i]].kind == Kind::Min {
                self.go(Step::Drain { h: hs[i] })?;
            }
        }
        for _ in 0..n {
            let from = self.rng.below(2) as usize;
            let mut pay = self.pay();
            if self.rng.chance(0.9) {
                pay.len = self.giant_len(mode);
            }
            let dg = self.dg();
            let io = if self.rng.chance(0.3) { Some(self.io(false, pay.len)) } else { None };
            let io = if self.eps[[a, b][from]].kind.is_ref() { None } else { io };
            self.go(Step::Write { h: hs[from], pay, dg, io })?;
            if self.sim.last_emitted {
                wait.push((1 - from, dg));
            }
        }
        while !wait.is_empty() {
            let i = self.rng.below(wait.len() as u64) as usize;
            let (to, dg) = wait.swap_remove(i);
            self.go(Step::Deliver { h: hs[to], dg, m: vec![] })?;
            if self.rng.chance(0.2) {
                self.go(Step::Deliver { h: hs[to], dg, m: vec![] })?;
            }
        }
        self.sim.stats.add("giant_messages", n);
        self.q.clear();
        self.quiet()
    }
    /// Arbitrary 64-bit message numbers from a peer that knows the key.
    pub fn numbers(&mut self) -> R {
        self.k.refs = 1.0;
        let (a, b) = self.establish()?;
        if !self.both_up(a, b) {
            return Ok(());
        }
        let (r, v) = if self.eps[a].kind.is_ref() { (a, b) } else { (b, a) };
        let (rh, vh) = (self.eps[r].h, self.eps[v].h);
        for _ in 0..self.rng.range(1, 5) {
            let next = self.sim.hs[&vh].sh.next;
            let nonce = match self.rng.below(8) {
                0 => u64::MAX - self.rng.below(40),
                1 => 1 << self.rng.below(64),
                2 => (1u64 << self.rng.range(1, 63)) - self.rng.below(3),
                3 => next,
                4 => next + self.rng.below(300),
                5 => (u64::from(u32::MAX) + self.rng.below(5)).wrapping_sub(2),
                6 => 65_530 + self.rng.below(12),
                _ => self.rng.next_u64(),
            };
            let n = *self.rng.pick(&[1u32, 2, 10, 40, 260]);
            let stride = *self.rng.pick(&[1u64, 1, 2, 256, 1 << 16, 1 << 32, u64::MAX]);
            let d = self.dgs(n);
            self.go(Step::CraftMany { dg: d, h: rh, nonce, n, stride })?;
            let order = *self.rng.pick(&[0u64, 1, 99]);
            self.go(Step::DeliverMany { h: vh, dg: d, n, order })?;
            // all again: nothing new
            if self.rng.chance(0.7) {
                self.go(Step::DeliverMany { h: vh, dg: d, n, order: self.rng.clone().below(3) })?;
            }
            // another message under a used number
            if self.rng.chance(0.5) {
                let dg = self.dg();
                let pay = self.pay();
                let used = nonce.wrapping_add(stride.wrapping_mul(self.rng.below(u64::from(n))));
                self.go(Step::CraftUser { dg, h: rh, body: Body::User { nonce: used, pay } })?;
                self.go(Step::Deliver { h: vh, dg, m: vec![] })?;
            }
        }
        self.sim.stats.add("number_runs", 1);
        // the genuine sequence still works
        let next = self.sim.hs[&vh].sh.next;
        if self.sim.hs[&vh].sh.live() {
            let n = self.rng.range(1, 300) as u32;
            let d = self.dgs(n);
            self.go(Step::CraftMany { dg: d, h: rh, nonce: next, n, stride: 1 })?;
            self.go(Step::DeliverMany { h: vh, dg: d, n, order: 5 })?;
            self.go(Step::DeliverMany { h: vh, dg: d, n, order: 1 })?;
        }
        Ok(())
    }
    /// User messages that overtake the peer's ACK, with duplicates, in bulk.
    pub fn early(&mut self) -> R {
        let mode = *self.rng.pick(&[Mode::Raw, Mode::Zip, Mode::Ser]);
        self.k.only_mode = Some(mode);
        let (a, b) = self.add_session();
        let (ha, hb) = (self.eps[a].h, self.eps[b].h);
        for e in [a, b] {
            if matches!(self.eps[e].expect, Expect::Of(_)) {
                self.eps[e].expect = Expect::Any;
            }
            self.event(E::Create(e))?;
        }
        let (ca, cb, aa, ab) = (self.dg(), self.dg(), self.dg(), self.dg());
        let c = self.custom();
        self.go(Step::Connect { h: ha, custom: c, dg: ca, io: None })?;
        self.go(Step::Connect { h: hb, custom: None, dg: cb, io: None })?;
        self.go(Step::Deliver { h: ha, dg: cb, m: vec![] })?;
        self.go(Step::Deliver { h: hb, dg: ca, m: vec![] })?;
        let c = self.custom();
        self.go(Step::Ack { h: ha, custom: c, dg: aa, io: None })?;
        self.go(Step::Ack { h: hb, custom: None, dg: ab, io: None })?;
        self.go(Step::Deliver { h: ha, dg: ab, m: vec![] })?;
        self.eps[a].conn = Some(ca);
        self.eps[a].ack = Some(aa);
        self.eps[b].conn = Some(cb);
        self.eps[b].ack = Some(ab);
        // a is up, b waits for a's ACK
        let n = *self.rng.pick(&[1u32, 2, 3, 5, 20, 60, 300]);
        let mut ds = vec![];
        let p = self.k.crowd;
        if self.rng.chance(p) {
            // thousands of them
            let n = *self.rng.pick(&[1_500u32, 4_000, 9_999, 10_001, 10_002, 12_000, 20_000, 66_000]);
            let d = self.dgs(n);
            let len = *self.rng.pick(&[0u32, 1, 20]);
            self.go(Step::WriteMany { h: ha, n, dg: d, len })?;
            let order = *self.rng.pick(&[0u64, 0, 1, 77]);
            // sometimes the first does not come: then more than the window holds may wait
            let hole = u32::from(self.rng.chance(if p == 1.0 { 0.75 } else { 0.4 }));
            let order = if n > 10_000 && hole == 0 { 0 } else { order };
            self.go(Step::DeliverMany { h: hb, dg: d + hole, n: n - hole, order })?;
            if hole == 1 {
                self.sim.stats.add("early_crowds_with_a_hole", 1);
                if self.rng.chance(0.8) {
                    self.go(Step::Deliver { h: hb, dg: aa, m: vec![] })?;
                    self.react(b, hb);
                    if self.eps[b].kind == Kind::Min {
                        self.go(Step::Drain { h: hb })?;
                    }
                    for x in [d + n - 1, d + 1, d] {
                        self.go(Step::Deliver { h: hb, dg: x, m: vec![] })?;
                    }
                    for i in 0..5 {
                        self.probe(b, i)?;
                    }
                    return self.run_loop();
                }
                self.go(Step::Deliver { h: hb, dg: d, m: vec![] })?;
            }
            self.sim.stats.add("early_crowds", 1);
            ds.extend([d, d + n / 2, d + n - 1]);
        }
        for _ in 0..n {
            let mut pay = self.pay();
            pay.len %= 400;
            let dg = self.dg();
            self.go(Step::Write { h: ha, pay, dg, io: None })?;
            if self.sim.last_emitted {
                ds.push(dg);
                self.eps[a].sent.push(dg);
            }
        }
        let mut order = ds.clone();
        for d in &ds {
            if self.rng.chance(0.3) {
                order.push(*d);
            }
        }
        for i in (1..order.len()).rev() {
            let j = self.rng.below(i as u64 + 1) as usize;
            order.swap(i, j);
        }
        let lost = *self.rng.pick(&[0.0, 0.0, 0.3]);
        for d in order {
            if self.rng.chance(lost) {
                self.sim.stats.add("net_lost", 1);
                continue;
            }
            self.go(Step::Deliver { h: hb, dg: d, m: vec![] })?;
            if self.k.attacks.1 > 0 && self.rng.chance(0.1) {
                self.attack()?;
            }
        }
        if self.rng.chance(0.06) {
            // a clear user message right now ends the connection
            let bytes = self.clear_user(b);
            let dg = self.dg();
            self.go(Step::CraftRaw { dg, bytes })?;
            self.go(Step::Deliver { h: hb, dg, m: vec![] })?;
            self.sim.stats.add("clear_user_while_negotiating", 1);
        }
        if self.k.attacks.1 > 0 {
            // forged ACKs while user messages wait
            for _ in 0..self.rng.below(3) {
                let dg = self.dg();
                let sign = Signer::Id(7);
                self.go(Step::CraftAck { dg, epk: Epk::Of(hb), sign, custom: vec![], pre: vec![] })?;
                self.inject(b, hb, dg)?;
            }
        }
        self.sim.stats.add("early_batches", 1);
        if self.rng.chance(0.1) {
            // never mind
            return Ok(());
        }
        self.go(Step::Deliver { h: hb, dg: aa, m: vec![] })?;
        self.react(b, hb);
        if self.eps[b].kind == Kind::Min {
            self.go(Step::Drain { h: hb })?;
        }
        // replays afterwards
        for d in ds.iter().take(8) {
            self.go(Step::Deliver { h: hb, dg: *d, m: vec![] })?;
        }
        self.q.clear();
        self.quiet()
    }
    /// Someone else, or someone in the middle, tries to complete the negotiation.
    pub fn impostor(&mut self) -> R {
        self.k.safe = false;
        self.k.harm = Harm::Any;
        let mode = *self.rng.pick(&[Mode::Raw, Mode::Zip, Mode::Ser]);
        self.k.only_mode = Some(mode);
        let n = self.rng.range(1, 3) as usize;
        for _ in 0..n {
            let (a, b) = self.add_session();
            // expectations: right, wrong, truncated, none
            for e in [a, b] {
                let p = self.eps[self.eps[e].peer].id;
                let x = self.rng.below(10);
                self.eps[e].expect = match x {
                    0..=2 => Expect::Id(((p % 8) + 1 + self.rng.below(6) as u8) % 8),
                    3 if p != 255 => {
                        let mut k = wire::id_pk(p);
                        match self.rng.below(5) {
                            0 => k.truncate(self.rng.below(32) as usize),
                            1 => k.push(0),
                            2 => k[31] ^= 1,
                            3 => k[0] ^= 0x80,
                            _ => k[self.rng.below(32) as usize] ^= 1 << self.rng.below(8),
                        }
                        Expect::Raw(k)
                    }
                    4..=7 if p != 255 => Expect::Id(p),
                    _ => Expect::Any,
                };
            }
        }
        for e in 0..self.eps.len() {
            self.event(E::Create(e))?;
        }
        let mut pool: Vec<u32> = vec![];
        for _ in 0..self.rng.range(8, 40) {
            let e = self.rng.below(self.eps.len() as u64) as usize;
            let h = self.eps[e].h;
            let dg = self.dg();
            match self.rng.below(12) {
                0 | 1 => {
                    let custom = self.custom();
                    self.go(Step::Connect { h, custom, dg, io: None })?;
                    if self.sim.last_emitted {
                        self.eps[e].conn = Some(dg);
                        pool.push(dg);
                    }
                }
                2 | 3 => {
                    let custom = self.custom();
                    self.go(Step::Ack { h, custom, dg, io: None })?;
                    if self.sim.last_emitted {
                        self.eps[e].ack = Some(dg);
                        pool.push(dg);
                    }
                }
                4..=8 => {
                    // relay: usually what is meant for this endpoint, sometimes anything
                    let p = self.eps[e].peer;
                    let mut c: Vec<u32> = self.eps[p].conn.iter().chain(self.eps[p].ack.iter()).copied().collect();
                    if self.rng.chance(0.25) || c.is_empty() {
                        c = pool.clone();
                    }
                    if !c.is_empty() {
                        let d = *self.rng.pick(&c);
                        if self.sim.dgs.contains_key(&d) {
                            self.go(Step::Deliver { h, dg: d, m: vec![] })?;
                            self.sim.stats.add("relayed", 1);
                            if self.eps[e].kind == Kind::Min && self.rng.chance(0.6) {
                                self.go(Step::TakeAck { h })?;
                            }
                        }
                    }
                }
                9 => {
                    self.attack()?;
                }
                10 => {
                    let to = self.hid();
                    self.go(Step::Clone { h, to })?;
                }
                _ => {
                    if self.rng.chance(0.3) {
                        let pay = self.pay();
                        self.go(Step::Write { h, pay, dg, io: None })?;
                        if self.sim.last_emitted {
                            self.eps[e].sent.push(dg);
                            pool.push(dg);
                        }
                    }
                }
            }
        }
        // whoever is not established must refuse
        for e in 0..self.eps.len() {
            let h = self.eps[e].h;
            let to = self.hid();
            self.go(Step::Clone { h, to })?;
            let pay = self.pay();
            let dg = self.dg();
            self.go(Step::Write { h, pay, dg, io: None })?;
        }
        self.sim.stats.add("impostor_runs", 1);
        self.q.clear();
        if self.k.observe {
            self.go(Step::Observe)?;
        }
        Ok(())
    }
    /// The same identities again and again; nobody may read or accept across sessions.
    pub fn many(&mut self) -> R {
        self.k.same_ids = true;
        self.k.pin = 0.7;
        self.k.random_id = 0.0;
        self.general()
    }
    pub fn reflect(&mut self) -> R {
        let (a, b) = self.establish()?;
        if !self.both_up(a, b) {
            return Ok(());
        }
        let e = if self.rng.chance(0.5) { a } else { b };
        let h = self.eps[e].h;
        if self.eps[e].kind.is_ref() {
            return Ok(());
        }
        let n = self.rng.range(1, 3);
        let mut d = 0;
        for _ in 0..n {
            let pay = self.pay();
            d = self.dg();
            self.go(Step::Write { h, pay, dg: d, io: None })?;
        }
        // altered reflections are refused or kill; the pure one is a known finding
        if self.rng.chance(0.3) {
            let p = self.rng.below(1 << 16) as u32;
            return self.go(Step::Deliver { h, dg: d, m: vec![Mut::Flip(p, 0)] });
        }
        self.go(Step::Deliver { h, dg: d, m: vec![] })
    }
    pub fn entropy(&mut self) -> R {
        if self.rng.chance(0.01) {
            return self.crowd();
        }
        for _ in 0..self.rng.range(4, 12) {
            let kind = *self.rng.pick(&[Kind::Min, Kind::Bin, Kind::Ser]);
            let own_id = self.rng.chance(0.5);
            let seed = self.rng.next_u64() >> 16;
            match self.rng.below(5) {
                0 | 1 => {
                    let pos = self.rng.below(64) as u32;
                    let bit = self.rng.below(8) as u8;
                    self.go(Step::EntropyBit { kind, own_id, seed, pos, bit })?;
                }
                2 | 3 => {
                    let hard = self.rng.chance(0.4);
                    let script = self.ent_script(hard);
                    self.go(Step::EntropyScript { kind, own_id, seed, script })?;
                }
                _ => {
                    let hard = self.rng.chance(0.3);
                    let script = self.ent_script(hard);
                    let flip = if !hard && self.rng.chance(0.5) {
                        Some((self.rng.below(32) as u32, self.rng.below(8) as u8))
                    } else {
                        None
                    };
                    self.go(Step::EntropySeed { seed, script, flip })?;
                }
            }
        }
        Ok(())
    }
    /// Hundreds of endpoints made in one process, each shows its ephemeral key.
    fn crowd(&mut self) -> R {
        let n = self.rng.range(100, 700);
        for _ in 0..n {
            let h = self.hid();
            let kind = *self.rng.pick(&[Kind::Min, Kind::Bin, Kind::Ser]);
            let ser = kind == Kind::Ser;
            let cfg = self.cfg(ser);
            let id = if kind != Kind::Min && self.rng.chance(0.5) { 255 } else { self.rng.below(8) as u8 };
            let ent = if self.rng.chance(0.05) { self.ent_script(false) } else { vec![] };
            self.go(Step::Create { h, kind, id, expect: Expect::Any, cfg, ent })?;
            let dg = self.dg();
            self.go(Step::Connect { h, dg, custom: None, io: None })?;
            if self.rng.chance(0.8) {
                self.go(Step::Drop { h })?;
            }
            self.sim.stats.add("endpoints_in_a_crowd", 1);
        }
        Ok(())
    }
    /// Creation under a faulty random source, retried, and then a whole session.
    pub fn entropy_session(&mut self) -> R {
        let (a, b) = self.add_session();
        for e in [a, b] {
            if matches!(self.eps[e].expect, Expect::Of(_)) {
                self.eps[e].expect = Expect::Any;
            }
        }
        for e in [a, b] {
            let x = self.eps[e].clone();
            if x.kind.is_ref() {
                continue;
            }
            for _ in 0..self.rng.below(3) {
                let ent = self.ent_script(true);
                let h = x.h;
                let cfg = x.cfg;
                // refused, or (the fault came too late to matter) created and thrown away
                self.go(Step::Create { h, kind: x.kind, id: x.id, expect: x.expect.clone(), cfg, ent })?;
                if self.sim.hs.contains_key(&h) {
                    self.go(Step::Drop { h })?;
                }
            }
        }
        self.k.ent = 0.9;
        self.k.drops = 0.0;
        self.schedule_session(a, b);
        self.run_loop()?;
        self.quiet()
    }
    pub fn erase(&mut self) -> R {
        self.k.refs = 1.0;
        self.k.clones = 0.6;
        self.k.drops = 0.6;
        self.k.sessions = 1;
        for _ in 0..self.rng.range(0, 2) {
            let seed = self.rng.next_u64() >> 16;
            self.go(Step::SeedDrop { seed })?;
        }
        let stop = self.rng.chance(0.3);
        let (a, b) = self.add_session();
        self.schedule_session(a, b);
        if stop {
            self.steps_left = self.rng.range(3, 14) as u32;
        }
        if self.rng.chance(0.3) {
            let t = self.rng.below(self.k.start_spread * 8);
            self.at(t, E::Kill);
        }
        self.run_loop()?;
        self.steps_left = 1000;
        if self.rng.chance(0.5) {
            self.quiet()?;
        }
        // everything goes, one by one, the rest must still work
        let mut hs: Vec<u32> = self.sim.hs.iter().filter(|(_, x)| !x.sh.kind.is_ref()).map(|(h, _)| *h).collect();
        for i in (1..hs.len()).rev() {
            let j = self.rng.below(i as u64 + 1) as usize;
            hs.swap(i, j);
        }
        for h in hs {
            for e in &mut self.eps {
                e.readers.retain(|y| *y != h);
                e.writers.retain(|y| *y != h);
            }
            self.go(Step::Drop { h })?;
            if self.rng.chance(0.5) {
                self.quiet()?;
            }
        }
        Ok(())
    }
    pub fn sim_time(&self) -> u64 {
        self.now
    }
}

// ---------------------------------------------------------------- which runs for which property

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fam {
    Nego,
    Traffic,
    Early,
    Byz,
    Forge,
    Impostor,
    Fuzz,
    Fail,
    Order,
    Io,
    IoHard,
    Entropy,
    EntSession,
    Config,
    Window,
    Long,
    Giant,
    Numbers,
    Interop,
    Malice,
    Erase,
    Conf,
    Clones,
    Isolation,
    Reflect,
    Crowd,
}
pub const FAMS: [(Fam, &str); 26] = [
    (Fam::Crowd, "crowd"),
    (Fam::Nego, "nego"),
    (Fam::Traffic, "traffic"),
    (Fam::Early, "early"),
    (Fam::Byz, "byz"),
    (Fam::Forge, "forge"),
    (Fam::Impostor, "impostor"),
    (Fam::Fuzz, "fuzz"),
    (Fam::Fail, "fail"),
    (Fam::Order, "order"),
    (Fam::Io, "io"),
    (Fam::IoHard, "io-hard"),
    (Fam::Entropy, "entropy"),
    (Fam::EntSession, "entropy-session"),
    (Fam::Config, "config"),
    (Fam::Window, "window"),
    (Fam::Long, "long"),
    (Fam::Giant, "giant"),
    (Fam::Numbers, "numbers"),
    (Fam::Interop, "interop"),
    (Fam::Malice, "malice"),
    (Fam::Erase, "erase"),
    (Fam::Conf, "conf"),
    (Fam::Clones, "clones"),
    (Fam::Isolation, "isolation"),
    (Fam::Reflect, "reflect"),
];
pub fn fam_name(f: Fam) -> &'static str {
    FAMS.iter().find(|(x, _)| *x == f).map_or("?", |(_, n)| n)
}

pub fn knobs(f: Fam, r: &mut Rng) -> Knobs {
    let mut k = Knobs::base(r);
    match f {
        Fam::Nego => {
            k.writes = (0, 3);
            k.sessions = *r.pick(&[1, 1, 2]);
            k.clones = 0.1;
            k.hs_io = 0.2;
        }
        Fam::Traffic => {
            k.sessions = *r.pick(&[1, 1, 1, 2, 3]);
            k.writes = (0, *r.pick(&[3, 10, 40, 120]));
            k.clones = *r.pick(&[0.0, 0.0, 0.3]);
            k.configs = *r.pick(&[0.0, 0.0, 0.3]);
            k.io = *r.pick(&[0.0, 0.0, 0.3]);
            k.batch = *r.pick(&[0.0, 0.2]);
            if r.chance(0.5) {
                // user data overtake the ACK
                k.hs_lat.1 = k.hs_lat.1.max(k.us_lat.0 * 64);
                k.gap = k.gap.min(k.us_lat.0);
            }
        }
        Fam::Early | Fam::Window | Fam::Long | Fam::Giant | Fam::Numbers | Fam::Entropy | Fam::Crowd => {
            k.random_id = 0.1;
            if f == Fam::Crowd {
                k.crowd = 1.0;
            }
            if f == Fam::Early && r.chance(0.4) {
                k.attacks = (1, 4);
            }
            if f == Fam::Window || f == Fam::Long {
                k.only_mode = Some(*r.pick(&[Mode::Raw, Mode::Zip]));
                k.big = 0.0;
                k.partitions = 0;
                k.stalls = 0;
            }
        }
        Fam::Byz => {
            k.sessions = *r.pick(&[1, 2, 2, 3]);
            k.writes = (1, 10);
            k.attacks = (3, 25);
            k.harm = *r.pick(&[Harm::Any, Harm::Any, Harm::Hold]);
            k.safe = k.harm != Harm::Any || r.chance(0.6);
            k.aw = [10, 4, 5, 1, 1, 1, 2, 5, 3, 1];
            k.clones = *r.pick(&[0.0, 0.3]);
            k.refs = 0.3;
        }
        Fam::Forge => {
            k.sessions = *r.pick(&[1, 1, 2]);
            k.writes = (0, 6);
            k.attacks = (2, 20);
            k.harm = *r.pick(&[Harm::Free, Harm::Hold, Harm::Hold]);
            k.aw = [4, 2, 3, 3, 8, 8, 0, 4, 0, 0];
            k.random_id = 0.1;
        }
        Fam::Impostor => {
            k.refs = 0.3;
            k.random_id = 0.15;
            k.aw = [6, 3, 3, 2, 5, 6, 1, 4, 2, 5];
            k.observe = r.chance(0.4);
        }
        Fam::Fuzz => {
            k.sessions = *r.pick(&[1, 2, 2]);
            k.safe = r.chance(0.5);
            k.writes = (0, 8);
            k.attacks = (5, 40);
            k.harm = Harm::Any;
            k.aw = [6, 1, 1, 1, 3, 3, 8, 4, 6, 3];
            k.refs = 0.4;
            k.soup = *r.pick(&[0.0, 0.5, 1.0]);
            k.clones = 0.2;
            k.wild_cfg = true;
            k.bad_fmt = 0.1;
        }
        Fam::Fail => {
            k.sessions = *r.pick(&[1, 2]);
            k.writes = (0, 8);
            k.kills = r.range(1, 4) as u32;
            k.clones = *r.pick(&[0.0, 0.3]);
            k.refs = 0.3;
            k.soup = *r.pick(&[0.0, 0.3]);
            k.safe = r.chance(0.7);
            k.observe = r.chance(0.4);
        }
        Fam::Order => {
            k.sessions = 1;
            k.writes = (0, 6);
            k.soup = *r.pick(&[0.5, 1.0, 2.0]);
            k.safe = r.chance(0.7);
            k.clones = 0.2;
            k.bad_fmt = *r.pick(&[0.0, 0.2]);
            k.min_extra = 0.5;
        }
        Fam::Io | Fam::IoHard => {
            k.refs = 0.15;
            k.writes = (1, 12);
            k.io = 0.7;
            k.hs_io = 0.7;
            k.batch = *r.pick(&[0.0, 0.4, 0.7]);
            k.loss = 0.0;
            k.big = 0.05;
            k.wild_cfg = r.chance(0.5);
            k.clones = *r.pick(&[0.0, 0.2]);
            if f == Fam::IoHard {
                k.io_hard = *r.pick(&[0.1, 0.3]);
                k.safe = r.chance(0.8);
            }
        }
        Fam::EntSession => {
            k.random_id = 0.6;
            k.writes = (0, 5);
        }
        Fam::Config => {
            k.refs = 0.3;
            k.wild_cfg = true;
            k.configs = 0.7;
            k.bad_fmt = *r.pick(&[0.0, 0.0, 0.3]);
            k.big = 0.15;
            k.custom = 0.8;
            k.only_mode = Some(*r.pick(&[Mode::Raw, Mode::Zip, Mode::Zip, Mode::Ser, Mode::Ser]));
            k.writes = (1, 14);
            k.loss = 0.0;
        }
        Fam::Interop => {
            k.refs = 1.0;
            k.wild_cfg = r.chance(0.5);
            k.writes = (0, 10);
            k.custom = 0.7;
        }
        Fam::Malice => {
            k.refs = 1.0;
            k.writes = (0, 6);
            k.attacks = (1, 12);
            k.harm = Harm::Any;
            k.safe = r.chance(0.8);
            k.aw = [1, 1, 0, 0, 1, 1, 4, 1, 8, 8];
        }
        Fam::Erase => {
            k.writes = (0, 6);
        }
        Fam::Conf => {
            k.sessions = *r.pick(&[1, 2, 3, 4]);
            k.refs = *r.pick(&[0.0, 0.5]);
            k.writes = (0, 8);
            k.observe = true;
            k.clones = 0.2;
            k.loss = 0.0;
        }
        Fam::Clones => {
            k.clones = 1.0;
            k.writes = (4, *r.pick(&[10, 30, 80]));
            k.both_write = 0.3;
            k.configs = 0.4;
            k.drops = *r.pick(&[0.0, 0.5]);
            k.io = *r.pick(&[0.0, 0.2]);
            k.batch = *r.pick(&[0.0, 0.2]);
            k.attacks = *r.pick(&[(0, 0), (1, 6)]);
            k.harm = *r.pick(&[Harm::Free, Harm::Any]);
        }
        Fam::Isolation => {
            k.sessions = 1;
            k.writes = (0, 8);
            k.same_ids = true;
            k.random_id = 0.3;
            k.clones = 0.2;
            k.kills = if r.chance(0.3) { 1 } else { 0 };
            k.io = 0.1;
            k.io_hard = 0.1;
            k.drops = 0.2;
            k.refs = 0.3;
            k.attacks = *r.pick(&[(0, 0), (1, 8)]);
            k.harm = Harm::Any;
            k.partitions = 0;
        }
        Fam::Reflect => {}
    }
    let p = match f {
        Fam::Clones => 0.3,
        Fam::Window | Fam::Long | Fam::Giant | Fam::Isolation => 0.0,
        _ => 0.05,
    };
    k.hop = r.chance(p);
    if matches!(f, Fam::Traffic | Fam::Byz | Fam::Nego | Fam::Conf | Fam::Isolation | Fam::Fail) && r.chance(0.12) {
        k.crashes = r.range(1, 2) as u32;
    }
    k
}

/// (family, weight) per property
pub fn mixture(prop: &str) -> &'static [(Fam, u32)] {
    use Fam::*;
    match prop {
        "C01" => &[(Byz, 55), (Malice, 12), (Traffic, 10), (Clones, 6), (Early, 8), (Conf, 5), (Reflect, 4)],
        "C02" => &[(Traffic, 3000), (Early, 2000), (Clones, 1800), (Numbers, 2000), (Byz, 1000), (Window, 200), (Long, 30)],
        "C03" => &[(Traffic, 5000), (Early, 2500), (Clones, 1000), (Io, 800), (Numbers, 500), (Window, 200), (Long, 25), (Giant, 30)],
        "C04" => &[(Nego, 70), (Traffic, 10), (Order, 10), (Forge, 10)],
        "C05" => &[(Impostor, 75), (Forge, 15), (Fail, 10)],
        "C06" => &[(Forge, 80), (Early, 20)],
        "C07" => &[(Fuzz, 5000), (Malice, 2500), (Order, 1000), (IoHard, 500), (Config, 500), (Numbers, 500), (Giant, 8)],
        "C08" => &[(Fail, 6900), (Byz, 800), (IoHard, 1000), (Malice, 700), (Order, 500), (Window, 80), (Crowd, 10)],
        "C09" => &[(Order, 65), (Impostor, 10), (Early, 10), (Fail, 15)],
        "C10" => &[(Io, 5500), (IoHard, 4500), (Giant, 20)],
        "C11" => &[(Config, 8000), (Interop, 2000), (Giant, 40)],
        "C12" => &[(Conf, 66), (EntSession, 12), (Fail, 14), (Impostor, 8)],
        "C13" => &[(Interop, 5000), (Malice, 4000), (Config, 1000), (Giant, 14), (Long, 5)],
        "C14" => &[(Clones, 9200), (Window, 200), (Erase, 600), (Long, 15)],
        "C15" => &[(Window, 56), (Numbers, 36), (Long, 3), (Crowd, 5)],
        "C16" => &[(Entropy, 65), (EntSession, 35)],
        "C17" => &[(Erase, 95), (Clones, 5)],
        "C18" => &[(Isolation, 100)],
        _ => &[(Traffic, 1)],
    }
}
pub fn pick_family(prop: &str, r: &mut Rng) -> Fam {
    let m = mixture(prop);
    let total: u32 = m.iter().map(|x| x.1).sum();
    let mut x = r.below(u64::from(total)) as u32;
    for (f, w) in m {
        if x < *w {
            return *f;
        }
        x -= w;
    }
    m[0].0
}
pub fn run_family(g: &mut Gen, f: Fam, deep: bool) -> R {
    match f {
        Fam::Early | Fam::Crowd => g.early(),
        Fam::Impostor => g.impostor(),
        Fam::Entropy => g.entropy(),
        Fam::EntSession => g.entropy_session(),
        Fam::Window => g.window(deep),
        Fam::Long => g.long(deep),
        Fam::Giant => g.giant(),
        Fam::Numbers => g.numbers(),
        Fam::Erase => g.erase(),
        Fam::Conf => g.many(),
        Fam::Reflect => g.reflect(),
        _ => g.general(),
    }
}

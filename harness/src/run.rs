//! Runs of one check: workers, one forked process per run, replay files, minimisation, evidence.

use crate::gen::*;
use crate::os;
use crate::rng::{fnv, mix, Rng, FNV0};
use crate::sim::*;
use crate::types::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub const PROPS: [&str; 18] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18",
];

// ---------------------------------------------------------------- processes

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}

/// (output, None) or (partial output, signal or exit code)
pub enum End {
    Done(Vec<u8>),
    Signal(i32),
    Exit(i32),
}
fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr(), b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}
fn read_all(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let n = unsafe { read(fd, buf.as_mut_ptr(), buf.len()) };
        if n <= 0 {
            return v;
        }
        v.extend_from_slice(&buf[..n as usize]);
    }
}
/// Run `f` in a forked process and collect what it returns.
pub fn forked(timeout: u32, f: impl FnOnce() -> Vec<u8>) -> End {
    let mut fds = [0i32; 2];
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            return End::Exit(-1);
        }
        let pid = fork();
        if pid < 0 {
            close(fds[0]);
            close(fds[1]);
            return End::Exit(-1);
        }
        if pid == 0 {
            close(fds[0]);
            os::limit(timeout);
            // no core files, at most 12 GB of addresses
            setrlimit(4, &[0, 0]);
            setrlimit(9, &[12 << 30, 12 << 30]);
            let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            match out {
                Ok(v) => {
                    write_all(fds[1], &v);
                    _exit(0)
                }
                Err(_) => _exit(77),
            }
        }
        close(fds[1]);
        let v = read_all(fds[0]);
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st & 0x7f != 0 {
            End::Signal(st & 0x7f)
        } else if st >> 8 != 0 {
            End::Exit((st >> 8) & 0xff)
        } else {
            End::Done(v)
        }
    }
}
struct Child {
    pid: i32,
    fd: i32,
}
fn spawn(f: impl FnOnce() -> Vec<u8>) -> Option<Child> {
    let mut fds = [0i32; 2];
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = fork();
        if pid < 0 {
            return None;
        }
        if pid == 0 {
            close(fds[0]);
            let v = f();
            write_all(fds[1], &v);
            _exit(0)
        }
        close(fds[1]);
        Some(Child { pid, fd: fds[0] })
    }
}

// ---------------------------------------------------------------- what a run is

#[derive(Clone, Serialize, Deserialize)]
pub struct World {
    pub seed: u64,
    #[serde(default)]
    pub hop: bool,
    pub steps: Vec<TStep>,
}
#[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
pub enum Style {
    Single,
    Twin,
    Isolation,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub family: String,
    pub verif_seed: u64,
    pub run: u64,
    pub style: Style,
    pub order: u64,
    pub hop: bool,
    pub worlds: Vec<World>,
    pub trace: Vec<String>,
}
#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct V {
    pub tags: Vec<String>,
    pub class: String,
    pub detail: String,
}
fn v_of(v: Viol) -> V {
    V { tags: v.tags.iter().map(|s| s.to_string()).collect(), class: v.class, detail: v.detail }
}
fn v_all(class: &str, detail: String) -> V {
    V { tags: PROPS.iter().map(|s| s.to_string()).collect(), class: class.into(), detail }
}
#[derive(Serialize, Deserialize, Default, Clone)]
pub struct Out {
    pub viol: Option<V>,
    pub soft: Vec<V>,
    pub stats: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub trace: u64,
    pub shape: u64,
    pub steps: u64,
    pub sim_us: u64,
    pub log: Vec<String>,
    pub worlds: Option<Vec<World>>,
    pub transcript: Vec<u64>,
}
impl Out {
    fn take(&mut self, s: &mut Sim) {
        for (k, n) in &s.stats.c {
            self.stat(k, *n);
        }
        self.states.extend(s.states.iter());
        self.trace = fnv(fnv(FNV0, &self.trace.to_le_bytes()), &s.trace.to_le_bytes());
        self.shape = fnv(fnv(FNV0, &self.shape.to_le_bytes()), &s.shape.to_le_bytes());
        self.steps += s.steps;
        for v in s.soft.drain(..) {
            self.soft.push(v_of(v));
        }
        if let Some(l) = &s.log {
            self.log.extend(l.iter().cloned());
        }
    }
    fn stat(&mut self, k: &str, n: u64) {
        let e = self.stats.entry(k.to_string()).or_insert(0);
        if k.ends_with("_max") {
            *e = (*e).max(n);
        } else {
            *e += n;
        }
    }
}

fn transcript(s: &Sim) -> Vec<u64> {
    let mut t = s.transcript.clone();
    for (_, ok, b) in &s.emits {
        t.push(fnv(fnv(FNV0, b), &[u8::from(*ok)]));
    }
    t
}
fn goal(p: &str) -> Option<&'static str> {
    PROPS.iter().find(|x| **x == p).copied()
}
fn play(w: &World, log: bool, goal: Option<&'static str>) -> (Sim, Option<Viol>) {
    let mut s = Sim::new(w.seed);
    s.hop = w.hop;
    s.goal = goal;
    s.record = true;
    if log {
        s.log = Some(vec![]);
    }
    for st in &w.steps {
        if let Err(v) = s.apply(st) {
            return (s, Some(v));
        }
    }
    (s, None)
}
/// Compare a run on faulty writers with the same run on perfect ones.
fn twin(faulty: &Sim, w: &World) -> Option<Viol> {
    let mut w2 = w.clone();
    for st in &mut w2.steps {
        match &mut st.s {
            Step::Connect { io, .. } | Step::Ack { io, .. } | Step::Write { io, .. } | Step::Batch { io, .. } => *io = None,
            _ => {}
        }
    }
    let (clean, v) = play(&w2, false, faulty.goal);
    if v.is_some() {
        return v;
    }
    for (i, (dg, ok, b)) in faulty.emits.iter().enumerate() {
        let (d2, ok2, c) = match clean.emits.get(i) {
            Some(x) => x,
            None => return None,
        };
        if dg != d2 {
            return None;
        }
        if *ok {
            if *ok2 && b != c {
                return Some(Viol {
                    tags: vec!["C10"],
                    class: "twin-differs".into(),
                    detail: format!("message {} of {} bytes differs from what a perfect writer gets ({} bytes)", dg, b.len(), c.len()),
                });
            }
        } else {
            if *ok2 && !c.starts_with(b) {
                return Some(Viol {
                    tags: vec!["C10"],
                    class: "twin-not-a-prefix".into(),
                    detail: format!("message {}: the {} bytes that reached the failing writer are not the beginning of the message", dg, b.len()),
                });
            }
            if b.len() > c.len() && *ok2 {
                return Some(Viol { tags: vec!["C10"], class: "twin-too-much".into(), detail: format!("message {}", dg) });
            }
            return None;
        }
    }
    None
}
fn finish(mut o: Out, s: &mut Sim, v: Option<Viol>) -> Out {
    o.take(s);
    o.transcript = transcript(s);
    o.viol = v.map(v_of);
    o
}

/// How often the whole company meets again in the same process: what one session leaves behind may
/// need many sessions to show.
fn rounds(worlds: &[World], order: u64) -> u64 {
    let mut r = Rng::new(mix(&[order, 0x0C]));
    if r.chance(0.015) {
        let weight: u64 = worlds
            .iter()
            .flat_map(|w| &w.steps)
            .map(|t| match &t.s {
                Step::WriteMany { n, .. } | Step::DeliverMany { n, .. } => u64::from(*n),
                _ => 1,
            })
            .sum();
        r.range(20, 100).min(20_000 / (weight + 1)).max(1)
    } else {
        1
    }
}
fn companies(worlds: &[World], alone: &[Out], order: u64, hop: bool, goal: Option<&'static str>) -> Vec<Out> {
    let n = rounds(worlds, order);
    for k in 0..n {
        let mut outs = company(worlds, if k == 0 { order } else { mix(&[order, k]) }, hop, goal);
        if k + 1 == n || compare(alone, &outs).is_some() {
            if n > 1 {
                if let Some(o) = outs.first_mut() {
                    o.stat("rounds_in_one_process", k + 1);
                }
            }
            return outs;
        }
    }
    vec![]
}
/// Interleave worlds in one process, one Sim each; maybe on ever new OS threads.
fn company(worlds: &[World], order: u64, hop: bool, goal: Option<&'static str>) -> Vec<Out> {
    let mut sims: Vec<Sim> = worlds
        .iter()
        .map(|w| {
            let mut s = Sim::new(w.seed);
            s.goal = goal;
            s.record = true;
            s.log = Some(vec![]);
            s
        })
        .collect();
    let mut pos = vec![0usize; worlds.len()];
    let mut dead: Vec<Option<Viol>> = worlds.iter().map(|_| None).collect();
    let mut r = Rng::new(order);
    let style = r.below(3);
    loop {
        let left: Vec<usize> = (0..worlds.len()).filter(|i| pos[*i] < worlds[*i].steps.len() && dead[*i].is_none()).collect();
        if left.is_empty() {
            break;
        }
        // one after the other, step by step, or in bursts
        let i = if style == 0 { left[0] } else { *r.pick(&left) };
        let n = match style {
            1 => 1,
            _ => 1 + r.below(6) as usize,
        };
        let mut go = |s: &mut Sim| {
            for _ in 0..n {
                if pos[i] >= worlds[i].steps.len() {
                    break;
                }
                let st = &worlds[i].steps[pos[i]];
                pos[i] += 1;
                if let Err(v) = s.apply(st) {
                    return Some(v);
                }
            }
            None
        };
        let s = &mut sims[i];
        let v = if hop { os::on_fresh(&mut || go(s)) } else { go(s) };
        dead[i] = v;
    }
    sims.iter_mut().zip(dead).map(|(s, v)| finish(Out::default(), s, v)).collect()
}
fn end_viol(e: &End) -> Option<V> {
    match e {
        End::Done(_) => None,
        End::Signal(14) => Some(v_all("hang", "the run did not end".into())),
        End::Signal(n) => Some(v_all("crash", format!("the process was ended by signal {}", n))),
        End::Exit(n) => Some(V { tags: vec!["HARNESS".into()], class: "harness".into(), detail: format!("exit {}", n) }),
    }
}
fn decode<T: serde::de::DeserializeOwned>(e: &End) -> Option<T> {
    match e {
        End::Done(v) => serde_json::from_slice(v).ok(),
        _ => None,
    }
}
fn enc<T: Serialize>(o: &T) -> Vec<u8> {
    serde_json::to_vec(o).expect("json")
}

/// Does this replay violate something? The log comes along.
pub fn evaluate(rp: &Replay, timeout: u32) -> (Option<V>, Vec<String>) {
    let goal = goal(&rp.property);
    match rp.style {
        Style::Single | Style::Twin => {
            let e = forked(timeout, || {
                let (mut s, v) = play(&rp.worlds[0], true, goal);
                let v = match v {
                    None if rp.style == Style::Twin => twin(&s, &rp.worlds[0]),
                    v => v,
                };
                enc(&finish(Out::default(), &mut s, v))
            });
            match decode::<Out>(&e) {
                Some(o) => {
                    let log = o.log.clone();
                    let mut all: Vec<V> = o.viol.into_iter().chain(o.soft).collect();
                    let at = all.iter().position(|v| v.class == rp.class && v.tags.contains(&rp.property)).unwrap_or(0);
                    (if all.is_empty() { None } else { Some(all.swap_remove(at)) }, log)
                }
                None => (end_viol(&e), vec![]),
            }
        }
        Style::Isolation => isolation(rp, timeout),
    }
}
fn isolation(rp: &Replay, timeout: u32) -> (Option<V>, Vec<String>) {
    let mut alone = vec![];
    for w in &rp.worlds {
        let e = forked(timeout, || {
            let (mut s, v) = play(w, true, goal(&rp.property));
            enc(&finish(Out::default(), &mut s, v))
        });
        match decode::<Out>(&e) {
            Some(o) => alone.push(o),
            None => return (end_viol(&e), vec![]),
        }
    }
    if alone.iter().any(|o| o.viol.is_some()) {
        // broken even when alone: not a matter of isolation
        return (None, vec![]);
    }
    let e = forked(4 * timeout, || enc(&companies(&rp.worlds, &alone, rp.order, rp.hop, goal(&rp.property))));
    match decode::<Vec<Out>>(&e) {
        None => (end_viol(&e), vec![]),
        Some(outs) => {
            let mut log = vec![];
            for (i, o) in outs.iter().enumerate() {
                for l in &o.log {
                    log.push(format!("world {}: {}", i, l));
                }
            }
            (compare(&alone, &outs), log)
        }
    }
}
fn compare(alone: &[Out], outs: &[Out]) -> Option<V> {
    for (i, (a, o)) in alone.iter().zip(outs).enumerate() {
        let only_here = if a.soft.is_empty() { o.soft.first() } else { None };
        if let Some(v) = o.viol.as_ref().or(only_here) {
            let mut tags = v.tags.clone();
            tags.push("C18".into());
            return Some(V {
                tags,
                class: format!("company/{}", v.class),
                detail: format!("world {} misbehaves only in the company of others: {}", i, v.detail),
            });
        }
        if a.transcript != o.transcript {
            let at = a.transcript.iter().zip(&o.transcript).position(|(x, y)| x != y);
            return Some(V {
                tags: vec!["C18".into()],
                class: "company/differs".into(),
                detail: format!("world {} behaves differently in the company of others (first difference at {:?})", i, at),
            });
        }
    }
    None
}

/// For trying out the oracles that need no model: use nothing else from the first step on.
fn apart() -> bool {
    std::env::var_os("SIM_APART").is_some()
}

/// For trying out one family.
fn only_family() -> Option<Fam> {
    let v = std::env::var("SIM_FAM").ok()?;
    FAMS.iter().find(|(_, n)| *n == v).map(|x| x.0)
}

pub struct Made {
    pub out: Out,
    pub family: Fam,
    pub style: Style,
    pub order: u64,
    pub hop: bool,
}
/// Make and execute run number `i` of a property's check.
pub fn one(prop: &str, vseed: u64, i: u64, deep: bool, log: bool) -> Made {
    let pidx = PROPS.iter().position(|p| *p == prop).unwrap_or(99) as u64;
    let seed = mix(&[vseed, pidx, i]);
    let mut r = Rng::new(mix(&[seed, 0xFA]));
    let fam = only_family().unwrap_or_else(|| pick_family(prop, &mut r));
    let timeout = match fam {
        Fam::Window | Fam::Long | Fam::Giant | Fam::Crowd => 150,
        _ => 60,
    };
    if fam == Fam::Isolation {
        return one_isolated(prop, seed, deep, log, &mut r);
    }
    let style = if matches!(fam, Fam::Io | Fam::IoHard) { Style::Twin } else { Style::Single };
    let journal = std::env::temp_dir().join(format!("pkstl-sim-{}-{}", std::process::id(), seed));
    let body = |journaling: bool| {
        let mut g = Gen::new(seed, |r| knobs(fam, r));
        if journaling {
            g.journal = std::fs::File::create(&journal).ok();
        }
        if log {
            g.sim.log = Some(vec![]);
        }
        g.sim.goal = goal(prop);
        if apart() {
            g.sim.go_adrift();
        }
        g.sim.record = style == Style::Twin;
        let mut v = run_family(&mut g, fam, deep).err();
        let w = World { seed: g.sim.seed, hop: g.sim.hop, steps: std::mem::take(&mut g.plan) };
        if v.is_none() && style == Style::Twin {
            v = twin(&g.sim, &w);
            g.sim.stats.add("twin_runs", 1);
        }
        let mut o = Out { sim_us: g.sim_time(), ..Out::default() };
        if v.is_some() || !g.sim.soft.is_empty() {
            o.worlds = Some(vec![w]);
        }
        finish(o, &mut g.sim, v)
    };
    let e = forked(timeout, || enc(&body(false)));
    let out = match decode::<Out>(&e) {
        Some(o) => o,
        None => {
            // once more, writing down each step before it is done
            let again = forked(timeout, || enc(&body(true)));
            let steps: Vec<TStep> = std::fs::read_to_string(&journal)
                .unwrap_or_default()
                .lines()
                .filter_map(|l| serde_json::from_str(l).ok())
                .collect();
            let _ = std::fs::remove_file(&journal);
            match (&e, decode::<Out>(&again)) {
                // a moment of overload, not a call that never ends
                (End::Signal(14), Some(o)) => o,
                _ => Out {
                viol: end_viol(&e),
                worlds: Some(vec![World { seed: mix(&[seed, 0x51]), hop: Gen::new(seed, |r| knobs(fam, r)).sim.hop, steps }]),
                ..Out::default()
                },
            }
        }
    };
    Made { out, family: fam, style, order: 0, hop: false }
}
fn one_isolated(prop: &str, seed: u64, deep: bool, log: bool, r: &mut Rng) -> Made {
    let mut n = r.range(2, if deep { 6 } else { 4 });
    let order = r.next_u64() >> 12;
    let hop = r.chance(0.25);
    let same = r.chance(0.25);
    // now and then a crowd, or neighbours that fill their reordering windows
    let heavy = !same && r.chance(0.01);
    if heavy {
        n = 4;
    } else if r.chance(0.02) {
        n = r.range(8, 24);
    }
    let mut worlds = vec![];
    let mut alone = vec![];
    let mut out = Out::default();
    for k in 0..n {
        // worlds are different; sometimes the same plan with other random bytes
        let s = mix(&[seed, if same { 0 } else { k }]);
        let e = forked(60, || {
            let fam = match Rng::new(mix(&[s, 3])).below(20) {
                _ if heavy => Fam::Window,
                0 | 1 => Fam::Fail,
                2 | 3 => Fam::Early,
                4 | 5 => Fam::Order,
                6 | 7 => Fam::Fuzz,
                8 | 9 => Fam::Config,
                10 => Fam::Numbers,
                11 => Fam::Malice,
                12 => Fam::Clones,
                _ => Fam::Isolation,
            };
            let mut g = Gen::new(s, |r| knobs(fam, r));
            if same {
                g.sim.seed = mix(&[seed, k, 0x77]);
                g.sim.app = shape_of(g.sim.seed);
            }
            g.sim.goal = goal(prop);
            g.sim.record = true;
            let v = run_family(&mut g, fam, false).err();
            let w = World { seed: g.sim.seed, hop: g.sim.hop, steps: std::mem::take(&mut g.plan) };
            let o = Out { worlds: Some(vec![w]), sim_us: g.sim_time(), ..Out::default() };
            enc(&finish(o, &mut g.sim, v))
        });
        match decode::<Out>(&e) {
            Some(mut o) => {
                if o.viol.is_some() {
                    // other checks tell about it
                    out.stat("runs_broken_when_alone", 1);
                    continue;
                }
                worlds.extend(o.worlds.take().unwrap_or_default());
                out.sim_us = out.sim_us.max(o.sim_us);
                alone.push(o);
            }
            None => out.stat("runs_broken_when_alone", 1),
        }
    }
    let e = forked(240, || enc(&companies(&worlds, &alone, order, hop, goal(prop))));
    match decode::<Vec<Out>>(&e) {
        Some(outs) => {
            out.viol = compare(&alone, &outs);
            for (k, o) in outs.into_iter().enumerate() {
                for (n, c) in &o.stats {
                    out.stat(n, *c);
                }
                out.states.extend(o.states);
                out.trace = fnv(fnv(FNV0, &out.trace.to_le_bytes()), &o.trace.to_le_bytes());
                out.shape = fnv(fnv(FNV0, &out.shape.to_le_bytes()), &o.shape.to_le_bytes());
                out.steps += o.steps;
                if log {
                    out.log.extend(o.log.iter().map(|l| format!("world {}: {}", k, l)));
                }
            }
        }
        None => out.viol = end_viol(&e),
    }
    out.shape = fnv(fnv(FNV0, &out.shape.to_le_bytes()), &order.to_le_bytes());
    out.stat("worlds", alone.len() as u64);
    out.stat("interleaved_runs", 1);
    if hop {
        out.stat("runs_on_changing_threads", 1);
    }
    if out.viol.is_some() {
        out.worlds = Some(worlds);
    }
    Made { out, family: Fam::Isolation, style: Style::Isolation, order, hop }
}

// ---------------------------------------------------------------- minimisation

fn same(v: &Option<V>, prop: &str, class: &str) -> bool {
    v.as_ref().map_or(false, |v| v.class == class && v.tags.iter().any(|t| t == prop))
}
pub fn minimise(mut rp: Replay, budget_s: u64) -> Replay {
    let t0 = Instant::now();
    let prop = rp.property.clone();
    let class = rp.class.clone();
    let timeout = if class == "hang" { 5 } else { 60 };
    let fails = |r: &Replay| same(&evaluate(r, timeout).0, &prop, &class);
    let over = || t0.elapsed().as_secs() >= budget_s;
    if !fails(&rp) {
        return rp;
    }
    // whole worlds
    let mut k = 0;
    while rp.worlds.len() > 1 && k < rp.worlds.len() && !over() {
        let mut c = rp.clone();
        c.worlds.remove(k);
        if fails(&c) {
            rp = c;
        } else {
            k += 1;
        }
    }
    for _ in 0..3 {
        let before = enc(&rp.worlds).len();
        for w in 0..rp.worlds.len() {
            let mut chunk = rp.worlds[w].steps.len().max(1);
            while chunk >= 1 && !over() {
                let mut i = 0;
                while i < rp.worlds[w].steps.len() && !over() {
                    let mut c = rp.clone();
                    let e = (i + chunk).min(c.worlds[w].steps.len());
                    c.worlds[w].steps.drain(i..e);
                    if fails(&c) {
                        rp = c;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
            // simpler steps
            for i in 0..rp.worlds[w].steps.len() {
                for alt in simpler(&rp.worlds[w].steps[i].s) {
                    if over() {
                        break;
                    }
                    let mut c = rp.clone();
                    c.worlds[w].steps[i].s = alt;
                    if fails(&c) {
                        rp = c;
                    }
                }
            }
        }
        if over() || enc(&rp.worlds).len() == before {
            break;
        }
    }
    // times do not matter any more: number the steps
    let mut c = rp.clone();
    for w in &mut c.worlds {
        for (i, s) in w.steps.iter_mut().enumerate() {
            s.t = i as u64;
        }
    }
    if fails(&c) {
        rp = c;
    }
    rp
}
fn smaller(p: &Pay) -> Vec<Pay> {
    let mut v = vec![];
    for len in [0, 1, 16, p.len / 2] {
        if len < p.len {
            v.push(Pay { len, ..*p });
        }
    }
    if p.style != 0 {
        v.push(Pay { style: 0, ..*p });
    }
    v
}
fn simpler_io(io: &Io) -> Vec<Option<Io>> {
    let mut v = vec![None];
    for i in 0..io.acts.len() {
        let mut c = io.clone();
        c.acts.remove(i);
        v.push(Some(c));
    }
    if io.then != 0 {
        v.push(Some(Io { then: 0, ..io.clone() }));
    }
    if io.full_at.is_some() {
        v.push(Some(Io { full_at: None, ..io.clone() }));
    }
    if io.cap != 0 {
        v.push(Some(Io { cap: 0, ..io.clone() }));
    }
    v
}
fn simpler(s: &Step) -> Vec<Step> {
    let plain = Cfg { level: 1, min: 8192, fmt: 2 };
    match s {
        Step::Create { h, kind, id, expect, cfg, ent } => {
            let mut v = vec![];
            if !ent.is_empty() {
                v.push(Step::Create { h: *h, kind: *kind, id: *id, expect: expect.clone(), cfg: *cfg, ent: vec![] });
            }
            if *cfg != plain {
                v.push(Step::Create { h: *h, kind: *kind, id: *id, expect: expect.clone(), cfg: plain, ent: ent.clone() });
            }
            v
        }
        Step::Connect { h, custom, dg, io } => {
            let mut v = vec![];
            if let Some(p) = custom {
                v.push(Step::Connect { h: *h, custom: None, dg: *dg, io: io.clone() });
                v.extend(smaller(p).into_iter().map(|p| Step::Connect { h: *h, custom: Some(p), dg: *dg, io: io.clone() }));
            }
            if let Some(o) = io {
                v.extend(simpler_io(o).into_iter().map(|io| Step::Connect { h: *h, custom: *custom, dg: *dg, io }));
            }
            v
        }
        Step::Ack { h, custom, dg, io } => {
            let mut v = vec![];
            if let Some(p) = custom {
                v.push(Step::Ack { h: *h, custom: None, dg: *dg, io: io.clone() });
                v.extend(smaller(p).into_iter().map(|p| Step::Ack { h: *h, custom: Some(p), dg: *dg, io: io.clone() }));
            }
            if let Some(o) = io {
                v.extend(simpler_io(o).into_iter().map(|io| Step::Ack { h: *h, custom: *custom, dg: *dg, io }));
            }
            v
        }
        Step::Write { h, pay, dg, io } => {
            let mut v: Vec<Step> =
                smaller(pay).into_iter().map(|pay| Step::Write { h: *h, pay, dg: *dg, io: io.clone() }).collect();
            if let Some(o) = io {
                v.extend(simpler_io(o).into_iter().map(|io| Step::Write { h: *h, pay: *pay, dg: *dg, io }));
            }
            v
        }
        Step::Batch { io, items } => {
            let mut v = vec![];
            for i in 0..items.len() {
                let mut c = items.clone();
                c.remove(i);
                v.push(Step::Batch { io: io.clone(), items: c });
                if let Some(p) = &items[i].pay {
                    for q in smaller(p) {
                        let mut c = items.clone();
                        c[i].pay = Some(q);
                        v.push(Step::Batch { io: io.clone(), items: c });
                    }
                }
                if items[i].flush {
                    let mut c = items.clone();
                    c[i].flush = false;
                    v.push(Step::Batch { io: io.clone(), items: c });
                }
            }
            if let Some(o) = io {
                v.extend(simpler_io(o).into_iter().map(|io| Step::Batch { io, items: items.clone() }));
            }
            v
        }
        Step::WriteMany { h, n, dg, len } => {
            let mut v = vec![];
            for m in [n / 2, n * 3 / 4, n.saturating_sub(1)] {
                if m < *n {
                    v.push(Step::WriteMany { h: *h, n: m, dg: *dg, len: *len });
                }
            }
            v
        }
        Step::DeliverMany { h, dg, n, order } => {
            let mut v = vec![];
            if *order > 1 {
                v.push(Step::DeliverMany { h: *h, dg: *dg, n: *n, order: 0 });
            }
            for m in [n / 2, n * 3 / 4, n.saturating_sub(1)] {
                if m < *n {
                    v.push(Step::DeliverMany { h: *h, dg: *dg, n: m, order: *order });
                }
            }
            v
        }
        Step::CraftMany { dg, h, nonce, n, stride } => {
            let mut v = vec![];
            for m in [n / 2, n.saturating_sub(1)] {
                if m < *n {
                    v.push(Step::CraftMany { dg: *dg, h: *h, nonce: *nonce, n: m, stride: *stride });
                }
            }
            v
        }
        Step::Deliver { h, dg, m } if !m.is_empty() => {
            let mut v = vec![];
            for i in 0..m.len() {
                let mut c = m.clone();
                c.remove(i);
                v.push(Step::Deliver { h: *h, dg: *dg, m: c });
            }
            v
        }
        Step::Alter { dg, from, m } if m.len() > 1 => {
            let mut v = vec![];
            for i in 0..m.len() {
                let mut c = m.clone();
                c.remove(i);
                v.push(Step::Alter { dg: *dg, from: *from, m: c });
            }
            v
        }
        Step::CraftRaw { dg, bytes } if !bytes.is_empty() => {
            let n = bytes.len();
            vec![
                Step::CraftRaw { dg: *dg, bytes: bytes[..n / 2].to_vec() },
                Step::CraftRaw { dg: *dg, bytes: bytes[..n - 1].to_vec() },
            ]
        }
        _ => vec![],
    }
}

// ---------------------------------------------------------------- a whole check

#[derive(Serialize, Deserialize, Default)]
struct Part {
    runs: u64,
    stats: BTreeMap<String, u64>,
    families: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    shapes: BTreeSet<u64>,
    traces: BTreeSet<u64>,
    interesting: u64,
    steps: u64,
    sim_us: u64,
    samples: Vec<(u64, String, Vec<String>)>,
    found: Vec<(u64, Replay)>,
    others: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    harness: Vec<String>,
    capped: bool,
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
}
/// Lines `KNOWN-FINDING: property=<id> class=<class> <what fails>`.
pub fn known_findings(root: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)) {
        for l in t.lines() {
            if let Some(rest) = l.trim().strip_prefix("KNOWN-FINDING: property=") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("").to_string();
                let c = it.next().unwrap_or("").trim_start_matches("class=").to_string();
                let text = it.next().unwrap_or("").to_string();
                v.push(Known { property: p, class: c, text });
            }
        }
    }
    v
}
/// What makes a run more than a plain exchange.
fn interesting(o: &Out) -> bool {
    const WORDS: [&str; 22] = [
        "io_", "net_", "entropy_", "attacks", "datagrams_altered", "refused_", "clones", "set_aside", "handles_dropped",
        "clock_jumps", "window_", "probes", "config_changes", "held_", "kills", "relayed", "number_runs", "long_sessions",
        "interleaved", "keys_looked_for", "giant", "early_crowds",
    ];
    o.stats.iter().any(|(k, n)| *n > 0 && WORDS.iter().any(|w| k.starts_with(w)))
}

pub struct Plan {
    pub runs: u64,
    pub cap_s: u64,
}
pub fn plan(prop: &str, deep: bool) -> Plan {
    let quick: u64 = match prop {
        "C15" => 700,
        "C18" => 6_000,
        "C02" | "C03" => 10_000,
        "C14" => 14_000,
        "C10" | "C11" => 18_000,
        "C01" | "C06" | "C12" => 25_000,
        "C05" | "C16" | "C17" => 50_000,
        _ => 40_000,
    };
    if deep {
        Plan { runs: quick * 25, cap_s: 3_000 }
    } else {
        Plan { runs: quick, cap_s: 240 }
    }
}

pub fn check(prop: &str, root: &str) -> i32 {
    let t0 = Instant::now();
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let deep = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut pl = plan(prop, deep);
    if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        pl.runs = n;
    }
    let workers: u64 = std::env::var("SIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64));
    let known = known_findings(root);
    println!("property={} VERIF_SEED={} runs={} workers={}", prop, vseed, pl.runs, workers);
    let shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const AtomicU64)
    };
    shared.store(u64::MAX, Ordering::SeqCst);
    let mut kids = vec![];
    for w in 0..workers {
        let k = spawn(|| {
            let mut part = Part::default();
            let mut i = w;
            while i < pl.runs {
                if i > shared.load(Ordering::SeqCst) {
                    break;
                }
                if t0.elapsed().as_secs() > pl.cap_s {
                    part.capped = true;
                    break;
                }
                let sample = i < 3;
                let m = one(prop, vseed, i, deep, sample);
                part.runs += 1;
                *part.families.entry(fam_name(m.family).to_string()).or_insert(0) += 1;
                part.steps += m.out.steps;
                part.sim_us += m.out.sim_us;
                for (k, n) in &m.out.stats {
                    let e = part.stats.entry(k.clone()).or_insert(0);
                    if k.ends_with("_max") {
                        *e = (*e).max(*n);
                    } else {
                        *e += n;
                    }
                }
                part.states.extend(m.out.states.iter());
                part.traces.insert(m.out.trace);
                if interesting(&m.out) {
                    part.interesting += 1;
                    part.shapes.insert(m.out.shape);
                }
                if sample {
                    let mut l = m.out.log.clone();
                    l.truncate(60);
                    part.samples.push((i, fam_name(m.family).to_string(), l));
                }
                let mut all: Vec<V> = m.out.soft.clone();
                all.extend(m.out.viol.clone());
                for v in all {
                    if v.class == "harness" {
                        part.harness.push(format!("run {}: {}", i, v.detail));
                        continue;
                    }
                    if !v.tags.iter().any(|t| t == prop) {
                        *part.others.entry(format!("{} {}", v.tags.join("+"), v.class)).or_insert(0) += 1;
                        if std::env::var_os("SIM_SHOW_OTHERS").is_some() {
                            eprintln!("run {} ({}): {:?} {}: {}", i, fam_name(m.family), v.tags, v.class, v.detail);
                        }
                        continue;
                    }
                    if known.iter().any(|k| k.property == prop && k.class == v.class) {
                        part.known.entry(v.class.clone()).or_insert((0, v.detail.clone())).0 += 1;
                        continue;
                    }
                    shared.fetch_min(i, Ordering::SeqCst);
                    part.found.push((
                        i,
                        Replay {
                            property: prop.to_string(),
                            class: v.class.clone(),
                            detail: v.detail.clone(),
                            family: fam_name(m.family).to_string(),
                            verif_seed: vseed,
                            run: i,
                            style: m.style.clone(),
                            order: m.order,
                            hop: m.hop,
                            worlds: m.out.worlds.clone().unwrap_or_default(),
                            trace: vec![],
                        },
                    ));
                }
                i += workers;
            }
            enc(&part)
        });
        match k {
            Some(k) => kids.push(k),
            None => {
                eprintln!("cannot start workers");
                return 2;
            }
        }
    }
    let mut sum = Part::default();
    let mut broken = false;
    for k in kids {
        let v = read_all(k.fd);
        unsafe {
            close(k.fd);
            let mut st = 0;
            waitpid(k.pid, &mut st, 0);
        }
        match serde_json::from_slice::<Part>(&v) {
            Ok(p) => {
                sum.runs += p.runs;
                for (k, n) in p.stats {
                    let e = sum.stats.entry(k.clone()).or_insert(0);
                    if k.ends_with("_max") {
                        *e = (*e).max(n);
                    } else {
                        *e += n;
                    }
                }
                for (k, n) in p.families {
                    *sum.families.entry(k).or_insert(0) += n;
                }
                for (k, n) in p.others {
                    *sum.others.entry(k).or_insert(0) += n;
                }
                for (k, (n, d)) in p.known {
                    sum.known.entry(k).or_insert((0, d)).0 += n;
                }
                sum.states.extend(p.states);
                sum.shapes.extend(p.shapes);
                sum.traces.extend(p.traces);
                sum.interesting += p.interesting;
                sum.steps += p.steps;
                sum.sim_us += p.sim_us;
                sum.samples.extend(p.samples);
                sum.found.extend(p.found);
                sum.harness.extend(p.harness);
                sum.capped |= p.capped;
            }
            Err(_) => broken = true,
        }
    }
    let explored_s = t0.elapsed().as_secs_f64();
    sum.samples.sort();
    sum.found.sort_by_key(|x| x.0);
    let mut code = 0;
    let mut replay_path = String::new();
    let mut report = None;
    if let Some((i, rp)) = sum.found.first() {
        println!("run {} broke {}: {} - {}", i, prop, rp.class, rp.detail);
        let budget = if deep { 120 } else { 45 };
        let full = rp.clone();
        let mut min = minimise(rp.clone(), budget);
        let (v, log) = evaluate(&min, 120);
        if same(&v, prop, &full.class) {
            min.detail = v.map(|v| v.detail).unwrap_or_default();
            min.trace = log;
            let n = min.trace.len();
            if n > 200 {
                min.trace.drain(..n - 200);
            }
        }
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        replay_path = format!("{}/{}-seed{}-run{}.json", dir, prop, vseed, i);
        let _ = std::fs::write(&replay_path, serde_json::to_string_pretty(&min).expect("json"));
        // in a fresh process
        let ok = std::env::current_exe()
            .ok()
            .and_then(|e| std::process::Command::new(e).arg("replay").arg(&replay_path).output().ok())
            .map_or(false, |o| o.status.code() == Some(1));
        if !ok {
            let _ = std::fs::write(&replay_path, serde_json::to_string_pretty(&full).expect("json"));
            println!("note: the minimised replay did not reproduce in a fresh process; the full one is kept");
        }
        for l in min.trace.iter().rev().take(12).rev() {
            println!("    {}", l);
        }
        println!("{} steps after minimisation; {}", min.worlds.iter().map(|w| w.steps.len()).sum::<usize>(), min.detail);
        report = Some((min.class.clone(), min.detail.clone()));
        code = 1;
    }
    for (p, k) in known.iter().filter(|k| k.property == prop).map(|k| (&k.property, k)) {
        match sum.known.get(&k.class) {
            Some((n, d)) => println!("KNOWN-FINDING: property={} {} [{} times; e.g. {}]", p, k.text, n, d),
            None => println!("KNOWN-FINDING: property={} {} [listed; not met in this run]", p, k.text),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = (sum.runs as f64 / explored_s.max(0.001) * 3600.0) as u64;
    let faults: BTreeMap<&String, &u64> = sum
        .stats
        .iter()
        .filter(|(k, _)| {
            ["io_", "net_", "entropy_", "attacks", "datagrams_altered", "datagrams_crafted", "clock", "partitions", "held_", "kills", "handles_dropped", "failed_", "relayed"]
                .iter()
                .any(|w| k.starts_with(w))
        })
        .collect();
    let reached: BTreeMap<&String, &u64> = sum.stats.iter().filter(|(k, _)| !faults.contains_key(k)).collect();
    let ev = serde_json::json!({
        "property": prop,
        "tier": if deep { "thorough" } else { "quick" },
        "seed": vseed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum.runs,
            "distinct_nontrivial": sum.shapes.len(),
            "rule": "One evaluation is one simulated run: seed = mix(VERIF_SEED, property, run number) draws a scenario family, its knobs, and then every message delay, loss, duplication, partition, stall, writer and random-source fault, attack and call of a discrete-event simulation of one or more sessions; every step is compared with the reference model. A run is non-trivial if at least one fault, attack, refusal, set-aside message, clone, drop, configuration change or probe really happened in it; two runs are distinct if the sequences of (operation, handle, outcome) differ.",
            "samples": sum.samples.iter().map(|(i, f, l)| serde_json::json!({"run": i, "family": f, "history": l})).collect::<Vec<_>>(),
            "nontrivial_runs": sum.interesting,
            "distinct_histories_including_bytes": sum.traces.len(),
            "distinct_abstract_endpoint_states": sum.states.len(),
            "simulated_steps": sum.steps,
            "simulated_seconds": sum.sim_us as f64 / 1e6,
            "runs_per_hour": per_hour,
            "seeds_per_hour": per_hour,
            "runs_by_family": sum.families,
            "faults_and_attacks_that_happened": faults,
            "reached": reached,
            "violations_of_other_properties_met": sum.others,
            "known_findings_met": sum.known.iter().map(|(k, (n, _))| (k.clone(), *n)).collect::<BTreeMap<_, _>>(),
            "stopped_by_wall_clock": sum.capped,
            "workers": workers,
            "real_components": ["pkstl (all of /repo/src, built from the working tree)", "ring", "cryptoxide", "flate2", "serde_json / serde_cbor / bincode", "std BufWriter"],
            "stubs": ["network (simulated datagrams)", "writer under BufWriter", "random source (getrandom system call)", "clock (clock_gettime)", "allocator accounting", "peer endpoint in runs with an independent implementation"]
        },
        "assumptions": [
            "the simulator samples; it does not enumerate",
            "the cryptographic primitives of ring and cryptoxide are taken as secure; the attacker does not break them",
            "the reference model in harness/src/shadow.rs and the codec in harness/src/wire.rs state the intended behaviour"
        ],
        "wall_s": wall,
        "violations": if code == 1 { 1 } else { 0 },
        "violation": report.map(|(c, d)| serde_json::json!({"class": c, "detail": d, "replay": replay_path}))
    });
    let dir = format!("{}/evidence", root);
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&ev).expect("json")).is_err() {
        eprintln!("cannot write the evidence file");
        return 2;
    }
    println!(
        "{} runs, {} distinct non-trivial, {} states, {} steps, {:.0} simulated s, {:.1} s",
        sum.runs,
        sum.shapes.len(),
        sum.states.len(),
        sum.steps,
        sum.sim_us as f64 / 1e6,
        wall
    );
    for (k, n) in &sum.others {
        println!("other: {} x{}", k, n);
    }
    if code == 1 {
        println!("VIOLATION property={} replay={}", prop, replay_path);
        return 1;
    }
    if broken || !sum.harness.is_empty() {
        eprintln!("harness error: {:?}", sum.harness.first());
        return 2;
    }
    0
}

pub fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let rp: Replay = match serde_json::from_str(&t) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let (v, log) = evaluate(&rp, 120);
    for l in &log {
        println!("{}", l);
    }
    match v {
        Some(v) if v.class == rp.class && v.tags.contains(&rp.property) => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={} replay={}", rp.property, path);
            1
        }
        Some(v) => {
            println!("another violation: {:?} {}: {}", v.tags, v.class, v.detail);
            3
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

/// Hash of everything the first runs do, for the determinism test.
pub fn digest(prop: &str, from: u64, to: u64) -> i32 {
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    for i in from..to {
        let m = one(prop, vseed, i, false, true);
        let mut h = FNV0;
        for l in &m.out.log {
            h = fnv(h, l.as_bytes());
        }
        println!("{} {} {} {:016x} {:016x} {:016x} {}", prop, i, fam_name(m.family), m.out.trace, m.out.shape, h, m.out.viol.map_or("-".into(), |v| v.class));
    }
    0
}
pub fn show(prop: &str, i: u64) -> i32 {
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let m = one(prop, vseed, i, false, true);
    println!("family {}", fam_name(m.family));
    for l in &m.out.log {
        println!("{}", l);
    }
    for (k, n) in &m.out.stats {
        println!("  {} {}", k, n);
    }
    println!("violation: {:?}", m.out.viol);
    println!("soft: {:?}", m.out.soft);
    0
}
pub fn init() {
    os::warm_up();
    install_panic_hook();
}

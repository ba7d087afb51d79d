//! What a run is made of: concrete steps, each meaningful on its own, so that any subset of a
//! recorded run can be executed again (that is what the minimiser does).

use crate::rng::{mix, Rng};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::Cell;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    /// pkstl::MinimalSecureLayer
    Min,
    /// pkstl::SecureLayer, binary functions
    Bin,
    /// pkstl::SecureLayer, serialising functions
    Ser,
    /// the independent implementation, body coding of Min / Bin / Ser
    RefMin,
    RefBin,
    RefSer,
}
impl Kind {
    pub fn is_ref(self) -> bool {
        matches!(self, Kind::RefMin | Kind::RefBin | Kind::RefSer)
    }
    /// CONNECT returns a stashed ACK, ACK returns the early user messages
    pub fn auto(self) -> bool {
        self != Kind::Min
    }
    pub fn mode(self) -> Mode {
        match self {
            Kind::Min | Kind::RefMin => Mode::Raw,
            Kind::Bin | Kind::RefBin => Mode::Zip,
            Kind::Ser | Kind::RefSer => Mode::Ser,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Raw,
    Zip,
    Ser,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Cfg {
    pub level: u8,
    pub min: u32,
    /// 0 raw binary, 1 plain text, 2 JSON, 3 CBOR, 4 bincode
    pub fmt: u8,
}
impl Cfg {
    pub fn can_serialise(&self) -> bool {
        self.fmt >= 2
    }
}

/// Application data, generated from a few integers.
pub const NO_PAY: Pay = Pay { len: 0, seed: 0, style: 0 };
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Pay {
    pub len: u32,
    pub seed: u64,
    /// 0 random, 1 zeros, 2 text, 3 pkstl-looking, 4 random head then repetition, 5 all 0xff;
    /// 6: a value whose serialisation fails (where it is serialised)
    pub style: u8,
}
impl Pay {
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.len as usize;
        let mut r = Rng::new(mix(&[0xDA7A, self.seed]));
        let mut v = Vec::with_capacity(n + 8);
        match self.style {
            1 => v.resize(n, 0),
            5 => v.resize(n, 0xff),
            2 => {
                const W: [&str; 8] = [
                    "peer ", "block ", "é ", "\u{1F511}", "transaction ", "0 ", "\n", "identity ",
                ];
                while v.len() < n {
                    v.extend_from_slice(W[r.below(8) as usize].as_bytes());
                }
                v.truncate(n);
            }
            3 => {
                v.extend_from_slice(&[0xE2, 0xC2, 0xE2, 0xD2, 0, 0, 0, 1]);
                v.extend_from_slice(&r.next_u64().to_be_bytes());
                v.extend_from_slice(&[0, r.below(4) as u8]);
                while v.len() < n {
                    v.push(r.next_u64() as u8);
                }
                v.truncate(n);
            }
            4 => {
                while v.len() < n.min(64) {
                    v.extend_from_slice(&r.next_u64().to_le_bytes());
                }
                v.truncate(n.min(64));
                while v.len() < n {
                    let k = v.len().min(n - v.len());
                    v.extend_from_within(..k);
                }
            }
            _ => {
                while v.len() < n {
                    v.extend_from_slice(&r.next_u64().to_le_bytes());
                }
                v.truncate(n);
            }
        }
        v
    }
    /// What the application of this run exchanges where messages are serialised.
    pub fn app(&self) -> App {
        let d = self.doc();
        let mut r = Rng::new(mix(&[0xA99, self.seed]));
        let n = self.len as usize;
        if self.style == 6 {
            return App::Broken(d.big, r.below(4) as u8);
        }
        match SHAPE.with(|s| s.get()) {
            0 => App::Doc(d),
            1 => App::Text(d.text),
            2 => App::Bytes(self.bytes()),
            3 => App::Unit,
            4 => App::Opt(if n == 0 { None } else { Some(d.big) }),
            5 => App::Tup(d.big, d.neg, char::from(r.below(256) as u8), r.chance(0.5)),
            6 => {
                let mut m = BTreeMap::new();
                for i in 0..(n / 16).min(3000) {
                    m.insert(
                        format!("{:x}{}", r.next_u64(), i),
                        if r.chance(0.3) { None } else { Some((0..r.below(4)).map(|_| r.next_u64() as i32).collect()) },
                    );
                }
                App::Map(m)
            }
            7 => App::Var(d.kind),
            8 => App::Nest((0..(n / 40).min(300)).map(|i| (0..i % 4).map(|_| d.text.chars().take(9).collect()).collect()).collect()),
            _ => App::Num(d.big as u32),
        }
    }
    fn doc(&self) -> Doc {
        let mut r = Rng::new(mix(&[0xD0C, self.seed]));
        let n = self.len as usize;
        let text = match self.style {
            1 => "\0".repeat(n),
            2 | 4 => String::from_utf8_lossy(&self.bytes()).into_owned(),
            _ => {
                let mut s = String::with_capacity(n);
                while s.len() < n {
                    let c = match r.below(10) {
                        0 => '"',
                        1 => '\\',
                        2 => '\u{7f}',
                        3 => '\u{2028}',
                        4 => '\u{10FFFF}',
                        5 => char::from(r.below(32) as u8),
                        _ => char::from(b'!' + r.below(90) as u8),
                    };
                    s.push(c);
                }
                s
            }
        };
        let nb = r.below(1 + (n as u64).min(40));
        let mut map = BTreeMap::new();
        for i in 0..r.below(4) {
            map.insert(format!("k{}{}", i, r.below(1000)), r.next_u64());
        }
        Doc {
            text,
            bytes: (0..nb).map(|_| r.next_u64() as u8).collect(),
            big: if r.chance(0.3) { u64::MAX - r.below(3) } else { r.next_u64() },
            neg: if r.chance(0.3) { i64::MIN + r.below(3) as i64 } else { -(r.below(1 << 40) as i64) },
            half: (r.below(1 << 20) as f64) / 8.0 - 1000.0,
            opt: match r.below(3) {
                0 => None,
                k => Some(k as u32),
            },
            kind: match r.below(4) {
                0 => Var::Unit,
                1 => Var::New(r.next_u64()),
                2 => Var::Tup(r.below(256) as u8, r.chance(0.5)),
                _ => Var::Rec {
                    a: r.next_u64() as i8,
                    b: vec![r.below(9) as u16; r.below(4) as usize],
                },
            },
            map,
            pair: (r.next_u64() as u16, r.chance(0.5)),
        }
    }
    /// What the peer application must see, in a form that can be compared.
    pub fn logical(&self, mode: Mode) -> Vec<u8> {
        match mode {
            Mode::Ser => app_bytes(&self.app()),
            _ => self.bytes(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Var {
    Unit,
    New(u64),
    Tup(u8, bool),
    Rec { a: i8, b: Vec<u16> },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Doc {
    pub text: String,
    pub bytes: Vec<u8>,
    pub big: u64,
    pub neg: i64,
    pub half: f64,
    pub opt: Option<u32>,
    pub kind: Var,
    pub map: BTreeMap<String, u64>,
    pub pair: (u16, bool),
}
thread_local! {
    static SHAPE: Cell<u8> = Cell::new(0);
}
/// The type of the serialised messages, one for a whole run; to be set before each step of it.
pub fn set_shape(s: u8) {
    SHAPE.with(|x| x.set(s));
}
pub fn shape_of(seed: u64) -> u8 {
    let mut r = Rng::new(mix(&[0x54A9E, seed]));
    if r.chance(0.6) {
        0
    } else {
        1 + r.below(9) as u8
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum App {
    Doc(Doc),
    Text(String),
    Bytes(Vec<u8>),
    Unit,
    Opt(Option<u64>),
    Tup(u64, i64, char, bool),
    Map(BTreeMap<String, Option<Vec<i32>>>),
    Var(Var),
    Nest(Vec<Vec<String>>),
    Num(u32),
    /// serialising it fails after some of it was written
    Broken(u64, u8),
}
impl Serialize for App {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeStruct};
        match self {
            App::Doc(x) => x.serialize(s),
            App::Text(x) => x.serialize(s),
            App::Bytes(x) => x.serialize(s),
            App::Unit => ().serialize(s),
            App::Opt(x) => x.serialize(s),
            App::Tup(a, b, c, d) => (a, b, c, d).serialize(s),
            App::Map(x) => x.serialize(s),
            App::Var(x) => x.serialize(s),
            App::Nest(x) => x.serialize(s),
            App::Num(x) => x.serialize(s),
            App::Broken(x, n) => {
                if *n == 0 {
                    return Err(S::Error::custom("value cannot be serialised"));
                }
                let mut st = s.serialize_struct("Broken", 3)?;
                st.serialize_field("first", x)?;
                if *n == 2 {
                    // more than any buffer on the way holds
                    st.serialize_field("second", &"broken".repeat(3000))?;
                }
                Err(S::Error::custom("value cannot be serialised"))
            }
        }
    }
}
impl<'de> Deserialize<'de> for App {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<App, D::Error> {
        Ok(match SHAPE.with(|s| s.get()) {
            0 => App::Doc(Doc::deserialize(d)?),
            1 => App::Text(Deserialize::deserialize(d)?),
            2 => App::Bytes(Deserialize::deserialize(d)?),
            3 => {
                <()>::deserialize(d)?;
                App::Unit
            }
            4 => App::Opt(Deserialize::deserialize(d)?),
            5 => {
                let (a, b, c, e) = Deserialize::deserialize(d)?;
                App::Tup(a, b, c, e)
            }
            6 => App::Map(Deserialize::deserialize(d)?),
            7 => App::Var(Deserialize::deserialize(d)?),
            8 => App::Nest(Deserialize::deserialize(d)?),
            _ => App::Num(Deserialize::deserialize(d)?),
        })
    }
}
pub fn app_bytes(a: &App) -> Vec<u8> {
    match a {
        App::Doc(d) => doc_bytes(d),
        App::Text(t) => t.clone().into_bytes(),
        App::Bytes(b) => b.clone(),
        x => format!("{:?}", x).into_bytes(),
    }
}
fn doc_bytes(d: &Doc) -> Vec<u8> {
    let mut v = d.text.clone().into_bytes();
    v.push(0);
    v.extend_from_slice(
        format!(
            "{:?}|{}|{}|{}|{:?}|{:?}|{:?}|{:?}",
            d.bytes, d.big, d.neg, d.half, d.opt, d.kind, d.map, d.pair
        )
        .as_bytes(),
    );
    v
}

/// How the writer under an endpoint behaves: buffer capacity, then one action per call.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Io {
    pub cap: u32,
    pub acts: Vec<Act>,
    /// what happens when `acts` is used up: accept at most this many bytes per call (0 = all)
    pub then: u32,
    /// fail for good once this many bytes were accepted (disk full)
    pub full_at: Option<u32>,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    All,
    Short(u32),
    Eintr,
    Err,
    Again,
    Zero,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mut {
    /// flip a bit; position modulo length
    Flip(u32, u8),
    Set(u32, u8),
    Cut(u32),
    CutEnd(u32),
    Extend(u64, u32),
    /// drop `n` bytes at `at`
    Remove(u32, u32),
    Insert(u32, u64, u32),
    /// first `at` bytes of this, rest of another datagram
    Splice(u32, u32),
    /// replace the last n bytes by the last n bytes of another datagram
    Tail(u32, u32),
    /// write a big-endian u64 at a position
    U64(u32, u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Expect {
    Any,
    Id(u8),
    Raw(Vec<u8>),
    /// the key of another endpoint (for random identities)
    Of(u32),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Epk {
    Of(u32),
    Own(u64),
    Low(u8),
    Bytes(u64),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Signer {
    Id(u8),
    /// random 64 bytes
    Junk(u64),
    /// signature taken from another datagram
    Copy(u32),
    /// zero bytes of this length
    Zero(u32),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Body {
    /// a well-formed user message
    User { nonce: u64, pay: Pay },
    /// body bytes given literally (raw, not coded)
    UserRaw { nonce: u64, body: Vec<u8> },
    /// a bomb: `n` zero bytes, deflated
    Bomb { nonce: u64, n: u32, fmt: u8 },
    /// user message with a wrong hash
    BadHash { nonce: u64, pay: Pay, how: u8 },
    /// user message with a wrong length field
    BadLen { nonce: u64, pay: Pay, len: u64 },
    /// correctly built plaintext with one changed byte (hash recomputed over it)
    Twist { nonce: u64, pay: Pay, at: u32, to: u8 },
    /// clear message inside the encryption
    Inner { dg: u32 },
    /// any plaintext
    Plain(Vec<u8>),
}

/// One call of a batch. `what`: 0 connect, 1 ack, 2 user message; then maybe a flush.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Item {
    pub h: u32,
    pub what: u8,
    pub pay: Option<Pay>,
    pub dg: u32,
    pub flush: bool,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Create {
        h: u32,
        kind: Kind,
        /// 255: let the library make a random identity
        id: u8,
        expect: Expect,
        cfg: Cfg,
        ent: Vec<u8>,
    },
    Connect { h: u32, custom: Option<Pay>, dg: u32, io: Option<Io> },
    Ack { h: u32, custom: Option<Pay>, dg: u32, io: Option<Io> },
    Write { h: u32, pay: Pay, dg: u32, io: Option<Io> },
    /// several messages, maybe of several handles, through one buffered writer
    Batch { io: Option<Io>, items: Vec<Item> },
    WriteMany { h: u32, n: u32, dg: u32, len: u32 },
    Clone { h: u32, to: u32 },
    Config { h: u32, cfg: Cfg },
    TakeAck { h: u32 },
    Drain { h: u32 },
    Deliver { h: u32, dg: u32, m: Vec<Mut> },
    /// deliver dg..dg+n; order 0 forward, 1 backward, else shuffled by it
    DeliverMany { h: u32, dg: u32, n: u32, order: u64 },
    Drop { h: u32 },
    /// `pre` is applied before signing
    CraftConnect { dg: u32, epk: Epk, claim: u8, sign: Signer, custom: Vec<u8>, algo: u8, pre: Vec<Mut> },
    CraftAck { dg: u32, epk: Epk, sign: Signer, custom: Vec<u8>, pre: Vec<Mut> },
    CraftRaw { dg: u32, bytes: Vec<u8> },
    /// the independent endpoint `h` abuses its key
    CraftUser { dg: u32, h: u32, body: Body },
    /// `n` user messages with consecutive numbers from `nonce` (wrapping), made by an independent endpoint
    CraftMany { dg: u32, h: u32, nonce: u64, n: u32, stride: u64 },
    /// mutate and store (for later delivery)
    Alter { dg: u32, from: u32, m: Vec<Mut> },
    /// create an endpoint twice with the same random bytes but for one bit
    EntropyBit { kind: Kind, own_id: bool, seed: u64, pos: u32, bit: u8 },
    /// create with a scripted random source; must give the keys the same bytes give without script
    EntropyScript { kind: Kind, own_id: bool, seed: u64, script: Vec<u8> },
    /// Seed32::random with a scripted source
    EntropySeed { seed: u64, script: Vec<u8>, flip: Option<(u32, u8)> },
    /// drop a boxed seed and look at its memory
    SeedDrop { seed: u64 },
    /// what an observer of the network can find out
    Observe,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TStep {
    /// simulated time in microseconds
    pub t: u64,
    pub s: Step,
}

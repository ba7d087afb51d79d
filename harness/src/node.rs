//! Adapters: the three public faces of pkstl, and the simulated writer below them.

use crate::refend::RefEnd;
use crate::types::*;
use crate::wire;
use pkstl::{
    EncryptAlgo, IncomingBinaryMessage, IncomingMessage, Message, MessageFormat,
    MinimalSecureLayer, SecureLayer, SecureLayerConfig, Seed32,
};
use std::io::{self, BufWriter, Write};
use std::sync::{Arc, Mutex};

/// What an application sees.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Connect { pk: Vec<u8>, custom: Option<Vec<u8>> },
    Ack { custom: Option<Vec<u8>> },
    User { data: Vec<u8> },
}

// ---------------------------------------------------------------- writer

#[derive(Default)]
pub struct Sink {
    pub got: Vec<u8>,
    pub closed: bool,
    pub hard: bool,
    pub calls: u32,
    /// how often each action really happened: short, eintr, err, again, zero, full
    pub fired: [u32; 6],
}
pub struct SimWriter {
    sink: Arc<Mutex<Sink>>,
    acts: Vec<Act>,
    pos: usize,
    then: u32,
    full_at: Option<u32>,
}
impl Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut s = self.sink.lock().expect("sink");
        if s.closed {
            return Ok(b.len());
        }
        if b.is_empty() {
            return Ok(0);
        }
        s.calls += 1;
        if s.calls > 2_000_000 {
            s.hard = true;
            return Err(io::Error::new(io::ErrorKind::Other, "simulated: too many calls"));
        }
        let act = if self.pos < self.acts.len() {
            self.pos += 1;
            self.acts[self.pos - 1]
        } else if self.then == 0 {
            Act::All
        } else {
            Act::Short(self.then)
        };
        let mut n = b.len();
        match act {
            Act::All => {}
            Act::Short(k) => {
                let k = (k.max(1)) as usize;
                if k < n {
                    n = k;
                    s.fired[0] += 1;
                }
            }
            Act::Eintr => {
                s.fired[1] += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            Act::Err => {
                s.fired[2] += 1;
                s.hard = true;
                return Err(io::Error::new(io::ErrorKind::Other, "simulated: EIO"));
            }
            Act::Again => {
                s.fired[3] += 1;
                s.hard = true;
                return Err(io::Error::from(io::ErrorKind::WouldBlock));
            }
            Act::Zero => {
                s.fired[4] += 1;
                s.hard = true;
                return Ok(0);
            }
        }
        if let Some(f) = self.full_at {
            let room = (f as usize).saturating_sub(s.got.len());
            if room == 0 {
                s.fired[5] += 1;
                s.hard = true;
                return Err(io::Error::new(io::ErrorKind::Other, "simulated: ENOSPC"));
            }
            n = n.min(room);
        }
        s.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct WriteOut {
    pub res: Result<(), String>,
    pub flush: Result<(), String>,
    pub sink: Vec<u8>,
    pub hard: bool,
    pub fired: [u32; 6],
}
pub type Buf = BufWriter<SimWriter>;
pub fn open_writer(io: &Option<Io>) -> (Arc<Mutex<Sink>>, Buf) {
    let sink = Arc::new(Mutex::new(Sink::default()));
    let (cap, w) = match io {
        None => (
            8192,
            SimWriter { sink: sink.clone(), acts: vec![], pos: 0, then: 0, full_at: None },
        ),
        Some(io) => (
            io.cap as usize,
            SimWriter {
                sink: sink.clone(),
                acts: io.acts.clone(),
                pos: 0,
                then: io.then,
                full_at: io.full_at,
            },
        ),
    };
    (sink, BufWriter::with_capacity(cap, w))
}
pub fn with_writer(io: &Option<Io>, f: impl FnOnce(&mut Buf) -> Result<(), String>) -> WriteOut {
    let (sink, mut bw) = open_writer(io);
    let res = f(&mut bw);
    let flush = if res.is_ok() {
        bw.flush().map_err(|e| e.to_string())
    } else {
        Ok(())
    };
    let mut s = sink.lock().expect("sink");
    s.closed = true;
    let out = WriteOut {
        res,
        flush,
        sink: std::mem::take(&mut s.got),
        hard: s.hard,
        fired: s.fired,
    };
    drop(s);
    drop(bw);
    out
}

// ---------------------------------------------------------------- endpoints

pub enum Node {
    Min(Box<MinimalSecureLayer>, u8),
    Full(Box<SecureLayer>, bool),
    Ref(Box<RefEnd>),
}

pub fn config(c: &Cfg) -> SecureLayerConfig {
    SecureLayerConfig {
        compression: flate2::Compression::new(u32::from(c.level.min(10))),
        compression_min_size: c.min as usize,
        message_format: match c.fmt {
            0 => MessageFormat::RawBinary,
            1 => MessageFormat::Utf8PlainText,
            2 => MessageFormat::Utf8Json,
            3 => MessageFormat::Cbor,
            _ => MessageFormat::Bincode,
        },
        encrypt_algo: EncryptAlgo::Chacha20Poly1305Aead,
    }
}
fn es(e: pkstl::Error) -> String {
    format!("{:?}", e)
}

impl Node {
    pub fn create(
        kind: Kind,
        id: u8,
        expect: Option<Vec<u8>>,
        cfg: &Cfg,
        label: u64,
    ) -> Result<Node, String> {
        Ok(match kind {
            Kind::Min => Node::Min(
                Box::new(MinimalSecureLayer::create(config(cfg), expect).map_err(es)?),
                id,
            ),
            Kind::Bin | Kind::Ser => {
                let seed = if id == 255 {
                    None
                } else {
                    Some(Seed32::new(wire::with_id(id, |i| i.seed)))
                };
                Node::Full(
                    Box::new(SecureLayer::create(config(cfg), seed, expect).map_err(es)?),
                    kind == Kind::Ser,
                )
            }
            _ => Node::Ref(Box::new(RefEnd::new(label, id, expect, kind.mode(), *cfg))),
        })
    }
    pub fn read(&mut self, d: &[u8]) -> Result<Vec<Ev>, String> {
        match self {
            Node::Min(m, _) => Ok(m.read(d).map_err(es)?.into_iter().map(min_ev).collect()),
            Node::Full(l, false) => Ok(l
                .read_bin(d)
                .map_err(es)?
                .into_iter()
                .map(|m| match m {
                    IncomingBinaryMessage::Connect { custom_data, peer_sig_public_key } => {
                        Ev::Connect { pk: peer_sig_public_key, custom: custom_data }
                    }
                    IncomingBinaryMessage::Ack { custom_data } => Ev::Ack { custom: custom_data },
                    IncomingBinaryMessage::Message { data } => {
                        Ev::User { data: data.unwrap_or_default() }
                    }
                })
                .collect()),
            Node::Full(l, true) => Ok(l
                .read::<App>(d)
                .map_err(es)?
                .into_iter()
                .map(|m| match m {
                    IncomingMessage::Connect { custom_data, peer_sig_public_key } => Ev::Connect {
                        pk: peer_sig_public_key,
                        custom: custom_data.map(|d| app_bytes(&d)),
                    },
                    IncomingMessage::Ack { custom_data } => Ev::Ack {
                        custom: custom_data.map(|d| app_bytes(&d)),
                    },
                    IncomingMessage::Message { data } => Ev::User {
                        data: data.map(|d| app_bytes(&d)).unwrap_or_default(),
                    },
                })
                .collect()),
            Node::Ref(r) => r.read(d),
        }
    }
    pub fn take_ack(&mut self) -> Result<Vec<Ev>, String> {
        match self {
            Node::Min(m, _) => Ok(m
                .take_ack_msg_recv_too_early()
                .map_err(es)?
                .into_iter()
                .map(min_ev)
                .collect()),
            _ => Ok(vec![]),
        }
    }
    pub fn drain(&mut self) -> Result<Vec<Ev>, String> {
        match self {
            Node::Min(m, _) => Ok(m
                .drain_tmp_stack_user_msgs()
                .map_err(es)?
                .into_iter()
                .map(min_ev)
                .collect()),
            _ => Ok(vec![]),
        }
    }
    /// Minimal endpoints hand out handshake messages and the application writes them; those, and
    /// what the independent endpoint writes, go to a writer without faults.
    fn own_io<'a>(&self, io: &'a Option<Io>, hs: bool) -> &'a Option<Io> {
        match self {
            Node::Full(..) => io,
            Node::Min(..) if !hs => io,
            _ => &None,
        }
    }
    pub fn connect(&mut self, custom: &Option<Pay>, io: &Option<Io>) -> WriteOut {
        let io = self.own_io(io, true);
        with_writer(io, |w| self.connect_to(custom, w))
    }
    pub fn ack(&mut self, custom: &Option<Pay>, io: &Option<Io>) -> WriteOut {
        let io = self.own_io(io, true);
        with_writer(io, |w| self.ack_to(custom, w))
    }
    pub fn write(&mut self, pay: &Pay, io: &Option<Io>) -> WriteOut {
        let io = self.own_io(io, false);
        with_writer(io, |w| self.write_to(pay, w))
    }
    pub fn connect_to(&mut self, custom: &Option<Pay>, w: &mut Buf) -> Result<(), String> {
        match self {
            Node::Min(m, id) => {
                let c = custom.map(|p| p.bytes());
                let pk = wire::id_pk(*id);
                let msg = m.create_connect_message(&pk, c.as_deref()).map_err(es)?;
                w.write_all(&msg).map_err(|e| e.to_string())?;
                w.write_all(&wire::sign(*id, &msg)).map_err(|e| e.to_string())
            }
            Node::Full(l, false) => {
                let c = custom.map(|p| p.bytes());
                l.write_connect_msg_bin(c.as_deref(), w).map_err(es)
            }
            Node::Full(l, true) => {
                let c = custom.map(|p| p.app());
                l.write_connect_msg(c.as_ref(), w).map_err(es)
            }
            Node::Ref(r) => {
                let m = r.connect(custom);
                w.write_all(&m?).map_err(|e| e.to_string())
            }
        }
    }
    pub fn ack_to(&mut self, custom: &Option<Pay>, w: &mut Buf) -> Result<(), String> {
        match self {
            Node::Min(m, id) => {
                let c = custom.map(|p| p.bytes());
                let msg = m.create_ack_message(c.as_deref()).map_err(es)?;
                w.write_all(&msg).map_err(|e| e.to_string())?;
                w.write_all(&wire::sign(*id, &msg)).map_err(|e| e.to_string())
            }
            Node::Full(l, false) => {
                let c = custom.map(|p| p.bytes());
                l.write_ack_msg_bin(c.as_deref(), w).map_err(es)
            }
            Node::Full(l, true) => {
                let c = custom.map(|p| p.app());
                l.write_ack_msg(c.as_ref(), w).map_err(es)
            }
            Node::Ref(r) => {
                let m = r.ack(custom);
                w.write_all(&m?).map_err(|e| e.to_string())
            }
        }
    }
    pub fn write_to(&mut self, pay: &Pay, w: &mut Buf) -> Result<(), String> {
        match self {
            Node::Min(m, _) => {
                let b = pay.bytes();
                m.write_message(&b, w).map_err(es)
            }
            Node::Full(l, false) => {
                let b = pay.bytes();
                l.write_bin(&b, w).map_err(es)
            }
            Node::Full(l, true) => {
                let d = pay.app();
                l.write(&d, w).map_err(es)
            }
            Node::Ref(r) => {
                let m = r.write(pay);
                w.write_all(&m?).map_err(|e| e.to_string())
            }
        }
    }
    /// The block this handle lives in: (address, size); none for the reference endpoint.
    pub fn block(&self) -> Option<(usize, usize)> {
        match self {
            Node::Min(m, _) => Some((&**m as *const MinimalSecureLayer as usize, std::mem::size_of::<MinimalSecureLayer>())),
            Node::Full(l, _) => Some((&**l as *const SecureLayer as usize, std::mem::size_of::<SecureLayer>())),
            Node::Ref(_) => None,
        }
    }
    pub fn try_clone(&mut self) -> Result<Node, String> {
        match self {
            Node::Min(m, id) => Ok(Node::Min(Box::new(m.try_clone().map_err(es)?), *id)),
            Node::Full(l, s) => Ok(Node::Full(Box::new(l.try_clone().map_err(es)?), *s)),
            Node::Ref(_) => Err("not cloneable".into()),
        }
    }
    pub fn change_config(&mut self, c: &Cfg) -> Result<(), String> {
        match self {
            Node::Min(m, _) => m.change_config(config(c)).map_err(es),
            Node::Full(l, _) => l.change_config(config(c)).map_err(es),
            Node::Ref(r) => {
                r.cfg = *c;
                Ok(())
            }
        }
    }
}

fn min_ev(m: Message) -> Ev {
    match m {
        Message::Connect { sig_pubkey, custom_data, .. } => {
            Ev::Connect { pk: sig_pubkey, custom: custom_data.filter(|c| !c.is_empty()) }
        }
        Message::Ack { custom_data } => Ev::Ack { custom: custom_data.filter(|c| !c.is_empty()) },
        Message::Message { custom_data } => Ev::User { data: custom_data.unwrap_or_default() },
    }
}

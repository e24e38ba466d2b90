//! Peer-wire messages as the specification has them, and simulated remote peers.
use crate::mc::{fail, Fail};
use crate::{ensure_eq, rt};
use nargun::verif::data_structures::{SerializableBuf, ID};
use nargun::verif::peers::connection::connection_handle::Connection;
use nargun::verif::peers::connection::connection_manager::ConMessageType;
use nargun::verif::peers::connection::message::{Message, Piece, Request};
use nargun::verif::peers::peer::Peer;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::mpsc;

pub const IH: [u8; 20] = *b"info hash 0123456789";
pub const ME: [u8; 20] = *b"own peer id abcdefgh";

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum M {
    KeepAlive,
    Choke,
    Unchoke,
    Interested,
    NotInterested,
    Have(u32),
    Bitfield(Vec<u8>),
    Request(u32, u32, u32),
    Piece(u32, u32, Vec<u8>),
    Cancel(u32, u32, u32),
    Port(u16),
    Finished(usize, Vec<u8>),
    Unreachable,
    Disconnected,
}
pub fn raw(id: u8, body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u32 + 1).to_be_bytes().to_vec();
    v.push(id);
    v.extend_from_slice(body);
    v
}
fn three(a: u32, b: u32, c: u32) -> Vec<u8> {
    [a.to_be_bytes(), b.to_be_bytes(), c.to_be_bytes()].concat()
}
impl M {
    pub fn wire(&self) -> Vec<u8> {
        match self {
            M::KeepAlive => vec![0; 4],
            M::Choke => raw(0, &[]),
            M::Unchoke => raw(1, &[]),
            M::Interested => raw(2, &[]),
            M::NotInterested => raw(3, &[]),
            M::Have(x) => raw(4, &x.to_be_bytes()),
            M::Bitfield(b) => raw(5, b),
            M::Request(a, b, c) => raw(6, &three(*a, *b, *c)),
            M::Piece(a, b, d) => raw(7, &[&a.to_be_bytes()[..], &b.to_be_bytes()[..], d].concat()),
            M::Cancel(a, b, c) => raw(8, &three(*a, *b, *c)),
            M::Port(p) => raw(9, &p.to_be_bytes()),
            _ => unreachable!(),
        }
    }
    pub fn real(&self) -> Message {
        match self.clone() {
            M::KeepAlive => Message::KeepAlive,
            M::Choke => Message::Choke,
            M::Unchoke => Message::Unchoke,
            M::Interested => Message::Interested,
            M::NotInterested => Message::NotInterested,
            M::Have(x) => Message::Have(x),
            M::Bitfield(b) => Message::Bitfield(SerializableBuf::from(b)),
            M::Request(a, b, c) => Message::Request(Request { index: a, begin: b, length: c }),
            M::Piece(a, b, d) => Message::Piece(Piece::new(a, b, &d)),
            M::Cancel(a, b, c) => Message::Cancel(Request { index: a, begin: b, length: c }),
            M::Port(p) => Message::Port(p),
            _ => unreachable!(),
        }
    }
}
impl From<ConMessageType> for M {
    fn from(m: ConMessageType) -> M {
        match m {
            ConMessageType::Unreachable => M::Unreachable,
            ConMessageType::Disconnected => M::Disconnected,
            ConMessageType::KeepAlive => M::KeepAlive,
            ConMessageType::Choke => M::Choke,
            ConMessageType::Unchoke => M::Unchoke,
            ConMessageType::Interested => M::Interested,
            ConMessageType::NotInterested => M::NotInterested,
            ConMessageType::Have(x) => M::Have(x),
            ConMessageType::Bitfield(b) => M::Bitfield(b.into_vec()),
            ConMessageType::Request(r) => M::Request(r.index, r.begin, r.length),
            ConMessageType::FinishedPiece(f) => M::Finished(f.idx, f.data.concat()),
            ConMessageType::Cancel(r) => M::Cancel(r.index, r.begin, r.length),
        }
    }
}
/// The well-formed messages at the beginning of a byte stream; whether an incomplete or too long one ends it.
pub fn spec_parse(b: &[u8]) -> (Vec<M>, bool) {
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        if b.len() - at < 4 {
            return (v, true);
        }
        let n = u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize;
        if n > b.len() - at - 4 {
            return (v, true);
        }
        v.extend(spec_message(&b[at + 4..at + 4 + n]));
        at += 4 + n;
    }
    (v, false)
}
/// A message without its length prefix.
pub fn spec_message(b: &[u8]) -> Option<M> {
    if b.is_empty() {
        return Some(M::KeepAlive);
    }
    let d = &b[1..];
    let n = |i: usize| u32::from_be_bytes(d[i..i + 4].try_into().unwrap());
    Some(match (b[0], d.len()) {
        (0, 0) => M::Choke,
        (1, 0) => M::Unchoke,
        (2, 0) => M::Interested,
        (3, 0) => M::NotInterested,
        (4, 4) => M::Have(n(0)),
        (5, _) => M::Bitfield(d.to_vec()),
        (6, 12) => M::Request(n(0), n(4), n(8)),
        (7, 8..) => M::Piece(n(0), n(4), d[8..].to_vec()),
        (8, 12) => M::Cancel(n(0), n(4), n(8)),
        (9, 2) => M::Port(u16::from_be_bytes([d[0], d[1]])),
        _ => return None,
    })
}
fn short(m: &M) -> String {
    let s = format!("{m:?}");
    if s.len() > 80 {
        format!("{}…({} bytes)", s.chars().take(60).collect::<String>(), m.wire().len())
    } else {
        s
    }
}
pub fn same(got: &[M], want: &[M], key: &str) -> Result<(), Fail> {
    if got == want {
        return Ok(());
    }
    let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let f = |v: &[M]| v.iter().skip(k.saturating_sub(1)).take(4).map(short).collect::<Vec<_>>().join(", ");
    fail(key, format!("{} instead of {} messages; from {k} on: [{}] instead of [{}]", got.len(), want.len(), f(got), f(want)))
}

pub fn handshake(ih: [u8; 20], id: [u8; 20]) -> [u8; 68] {
    let mut b = [0u8; 68];
    b[0] = 19;
    b[1..20].copy_from_slice(b"BitTorrent protocol");
    b[27] = 1;
    b[28..48].copy_from_slice(&ih);
    b[48..].copy_from_slice(&id);
    b
}
pub fn peer_addr(n: u8) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, 3, 0, n), 7000 + n as u16)
}

/// A remote peer that listens.
pub struct Remote {
    pub addr: SocketAddrV4,
    pub l: Option<TcpListener>,
    pub ih: [u8; 20],
    pub client: [u8; 20],
}
impl Remote {
    pub async fn new(addr: SocketAddrV4) -> Remote {
        let mut r = Remote { addr, l: None, ih: IH, client: ME };
        r.listen().await;
        r
    }
    pub async fn listen(&mut self) {
        self.l = Some(TcpListener::bind(SocketAddr::V4(self.addr)).await.expect("bind"));
    }
    pub fn peer(&self) -> Peer {
        Peer::new(self.addr)
    }
    /// The next connection, nothing read from it.
    pub async fn accept_silent(&self) -> Result<TcpStream, Fail> {
        match tokio::time::timeout(Duration::from_secs(5), self.l.as_ref().unwrap().accept()).await {
            Ok(Ok((c, _))) => Ok(c),
            _ => fail("no connection opened", format!("{}", self.addr)),
        }
    }
    /// A connection that is already waiting.
    pub async fn try_accept(&self) -> Option<TcpStream> {
        match tokio::time::timeout(Duration::from_millis(1), self.l.as_ref()?.accept()).await {
            Ok(Ok((c, _))) => Some(c),
            _ => None,
        }
    }
    async fn read_handshake(&self, c: &mut TcpStream) -> Result<(), Fail> {
        let mut b = [0u8; 68];
        match tokio::time::timeout(Duration::from_secs(5), c.read_exact(&mut b)).await {
            Ok(Ok(_)) => (),
            r => return fail("incomplete handshake", format!("{r:?}")),
        }
        ensure_eq!(b.to_vec(), handshake(self.ih, self.client).to_vec(), "wrong handshake sent", "handshake");
        Ok(())
    }
    /// Accepts and reads the client's handshake.
    pub async fn accept_raw(&self) -> Result<TcpStream, Fail> {
        let mut c = self.accept_silent().await?;
        self.read_handshake(&mut c).await?;
        Ok(c)
    }
    pub async fn shake(&self, c: &mut TcpStream) -> Result<(), Fail> {
        self.read_handshake(c).await?;
        let _ = c.write_all(&handshake(self.ih, [b'r'; 20])).await;
        rt::settle().await;
        Ok(())
    }
    /// Accepts and completes the handshake.
    pub async fn accept(&self) -> Result<TcpStream, Fail> {
        let mut c = self.accept_silent().await?;
        self.shake(&mut c).await?;
        Ok(c)
    }
}
/// Everything that can be read now; whether the stream ended.
pub async fn read_now(c: &mut TcpStream) -> (Vec<u8>, bool) {
    read_some(c, usize::MAX).await
}
pub async fn read_some(c: &mut TcpStream, max: usize) -> (Vec<u8>, bool) {
    let mut v = vec![];
    let mut b = vec![0u8; 1 << 16];
    while v.len() < max {
        let want = (max - v.len()).min(b.len());
        match tokio::time::timeout(Duration::from_micros(1), c.read(&mut b[..want])).await {
            Ok(Ok(0)) => return (v, true),
            Ok(Ok(n)) => v.extend_from_slice(&b[..n]),
            Ok(Err(_)) => return (v, true),
            Err(_) => break,
        }
    }
    (v, false)
}
/// A stream connected to nothing of interest.
pub async fn dummy() -> TcpStream {
    let l = TcpListener::bind("10.99.0.1:0").await.expect("bind");
    let a = l.local_addr().unwrap();
    let (c, _) = tokio::join!(TcpStream::connect(a), l.accept());
    c.expect("dummy")
}

/// The connection handle and its remote peers.
pub struct Net {
    pub con: Connection,
    pub remotes: Vec<Remote>,
    pub dht: mpsc::Receiver<SocketAddrV4>,
    pub queue: Vec<(SocketAddrV4, M)>,
}
impl Net {
    pub async fn new(n: usize) -> Net {
        Net::with(n, IH, ME, 16384, 16384).await
    }
    pub async fn with(n: usize, ih: [u8; 20], me: [u8; 20], piece_length: usize, total: u64) -> Net {
        let (dtx, dht) = mpsc::channel(64);
        let mut remotes = vec![];
        for i in 0..n {
            let mut r = Remote::new(peer_addr(i as u8 + 1)).await;
            r.ih = ih;
            r.client = me;
            remotes.push(r);
        }
        Net { con: Connection::new(ID::new(me), ID::new(ih), piece_length, total, dtx), remotes, dht, queue: vec![] }
    }
    /// Opens connection `i` completely.
    pub async fn connect(&mut self, i: usize) -> Result<TcpStream, Fail> {
        let p = self.remotes[i].peer();
        self.con.connect(p);
        self.remotes[i].accept().await
    }
    /// Lets the owner take what it was told so far.
    pub fn pump(&mut self) {
        loop {
            let f = self.con.recv();
            tokio::pin!(f);
            let w = std::task::Waker::noop();
            match std::future::Future::poll(f, &mut std::task::Context::from_waker(&w)) {
                std::task::Poll::Ready(m) => self.queue.push((*m.peer.addr(), M::from(m.message))),
                std::task::Poll::Pending => break,
            }
        }
    }
    /// What the owner was told about remote `i`.
    pub fn drain(&mut self, i: usize) -> Vec<M> {
        self.pump();
        let a = self.remotes[i].addr;
        let (x, y): (Vec<_>, Vec<_>) = self.queue.drain(..).partition(|(p, _)| *p == a);
        self.queue = y;
        x.into_iter().map(|(_, m)| m).collect()
    }
}

//! A simulated HTTP tracker.
use crate::bencode::{self, bytes, dict, int};
use crate::mc::{self, Fail};
use crate::{ensure, rt};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::time::Instant;

type A = SocketAddrV4;
pub fn k(x: &str) -> Vec<u8> {
    x.as_bytes().to_vec()
}
// ------------------------------------------------------------------ tracker
pub struct Tracker {
    pub addr: A,
    pub l: Option<TcpListener>,
}
/// A request as the tracker reads it.
#[derive(Clone, Debug)]
pub struct Req {
    pub at: Instant,
    pub target: String,
    pub path: String,
    pub query: String,
}
impl Tracker {
    pub async fn new(addr: A) -> Tracker {
        Tracker { addr, l: Some(TcpListener::bind(SocketAddr::V4(addr)).await.expect("bind")) }
    }
    pub fn down(&mut self) {
        self.l = None;
    }
    pub async fn up(&mut self) {
        self.l = Some(TcpListener::bind(SocketAddr::V4(self.addr)).await.expect("bind"));
    }
    /// The next request, if one starts to arrive within `d`.
    pub async fn next(&self, d: Duration) -> Result<Option<(TcpStream, Req)>, Fail> {
        let l = self.l.as_ref().expect("tracker is down");
        match tokio::time::timeout(d, l.accept()).await {
            Err(_) => Ok(None),
            Ok(r) => {
                let (mut c, _) = r.expect("accept");
                let at = Instant::now();
                let mut b = vec![];
                while !b.windows(4).any(|w| w == b"\r\n\r\n") {
                    match tokio::time::timeout(Duration::from_secs(5), c.read_buf(&mut b)).await {
                        Ok(Ok(n)) if n > 0 => (),
                        _ => return mc::fail("no-request", format!("a connection without a complete request: {:?}", String::from_utf8_lossy(&b))),
                    }
                }
                let t = String::from_utf8_lossy(&b).to_string();
                let line = t.lines().next().unwrap_or("").to_string();
                let p: Vec<&str> = line.split(' ').collect();
                ensure!(p.len() == 3 && p[0] == "GET" && p[2].starts_with("HTTP/1."), "bad-request-line", "{line}");
                let target = p[1].to_string();
                let (path, query) = target.split_once('?').unwrap_or((&target, ""));
                Ok(Some((c, Req { at, path: path.into(), query: query.into(), target: target.clone() })))
            }
        }
    }
}
pub async fn answer(c: &mut TcpStream, status: &str, body: &[u8]) {
    let mut m = format!("HTTP/1.1 {status}\r\nContent-Type: text/plain\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).into_bytes();
    m.extend_from_slice(body);
    let _ = c.write_all(&m).await;
    let _ = c.shutdown().await;
}
pub async fn answer_chunked(c: &mut TcpStream, body: &[u8]) {
    let mut m = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec();
    for p in body.chunks(7) {
        m.extend(format!("{:x}\r\n", p.len()).into_bytes());
        m.extend_from_slice(p);
        m.extend(b"\r\n");
    }
    m.extend(b"0\r\n\r\n");
    let _ = c.write_all(&m).await;
    let _ = c.shutdown().await;
}

/// Percent-decoding as a tracker does it ('+' is a space).
pub fn decode(x: &str) -> Result<Vec<u8>, Fail> {
    let b = x.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                let hx = x.get(i + 1..i + 3).and_then(|t| u8::from_str_radix(t, 16).ok());
                match hx {
                    Some(c) => v.push(c),
                    None => return mc::fail("bad-escape", format!("{x:?}")),
                }
                i += 3;
            }
            b'+' => {
                v.push(b' ');
                i += 1;
            }
            c => {
                ensure!(c.is_ascii_graphic(), "unescaped byte in a query", "{x:?}");
                v.push(c);
                i += 1;
            }
        }
    }
    Ok(v)
}
#[derive(Debug, Clone, PartialEq)]
pub struct Announce {
    /// parameters that are not the announce's own, as they stand
    pub own: String,
    pub info_hash: Vec<u8>,
    pub peer_id: Vec<u8>,
    pub port: u64,
    pub left: u64,
    pub compact: Vec<u8>,
    pub event: Option<String>,
    pub tracker_id: Option<Vec<u8>>,
}
/// Reads an announce whose URL had `prefix` as its query.
pub fn read(r: &Req, prefix: &str) -> Result<Announce, Fail> {
    let bad = |w: &str| Fail { key: format!("bad-announce: {w}"), msg: r.target.clone() };
    let Some(rest) = r.query.strip_prefix(prefix) else { return Err(bad("the announce URL's query is not kept")) };
    if !prefix.is_empty() && !prefix.ends_with('&') && !rest.starts_with('&') {
        return Err(bad("the announce URL's query is not kept apart"));
    }
    let mut m: Vec<(String, Vec<u8>)> = vec![];
    for p in rest.split('&').filter(|p| !p.is_empty()) {
        let (a, v) = p.split_once('=').ok_or_else(|| bad("parameter without value"))?;
        if m.iter().any(|(x, _)| x == a) {
            return Err(bad("repeated parameter"));
        }
        m.push((a.to_string(), decode(v)?));
    }
    let get = |n: &str| m.iter().find(|(a, _)| a == n).map(|(_, v)| v.clone());
    let num = |n: &str| get(n).and_then(|v| String::from_utf8(v).ok()).and_then(|v| v.parse::<u64>().ok()).ok_or_else(|| bad(&format!("{n} missing or not a number")));
    num("uploaded")?;
    num("downloaded")?;
    Ok(Announce {
        own: r.query[..prefix.len()].to_string(),
        info_hash: get("info_hash").ok_or_else(|| bad("no info_hash"))?,
        peer_id: get("peer_id").ok_or_else(|| bad("no peer_id"))?,
        port: num("port")?,
        left: num("left")?,
        compact: get("compact").unwrap_or_default(),
        event: get("event").map(|e| String::from_utf8_lossy(&e).to_string()).filter(|e| !e.is_empty()),
        tracker_id: get("trackerid"),
    })
}
pub fn peer_bytes(a: &[A]) -> Vec<u8> {
    a.iter().flat_map(|a| a.ip().octets().into_iter().chain(a.port().to_be_bytes())).collect()
}
pub fn reply(interval: u64, peers: &[A], tid: Option<&[u8]>) -> Vec<u8> {
    let mut d = vec![(k("interval"), int(interval as i128)), (k("peers"), bytes(&peer_bytes(peers))), (k("complete"), int(3)), (k("incomplete"), int(4))];
    if let Some(t) = tid {
        d.push((k("tracker id"), bytes(t)));
    }
    bencode::encode(&dict(d))
}


//! Datagrams of the DHT as its specification has them.
use crate::bencode::{self, bytes, dict, int, list, V};
use crate::mc::Fail;
use crate::net::Udp;
use crate::ensure_eq;
use nargun::verif::data_structures::ID;
use std::net::{Ipv4Addr, SocketAddrV4};

pub type B = [u8; 20];
pub type A = SocketAddrV4;
pub const UDP_PORT: u16 = 46493;
pub fn svc_addr() -> A {
    SocketAddrV4::new(Ipv4Addr::LOCALHOST, UDP_PORT)
}
pub fn b(id: &ID) -> B {
    id.as_byte_ref().try_into().unwrap()
}
pub fn k(x: &str) -> Vec<u8> {
    x.as_bytes().to_vec()
}
pub fn xor(a: &B, c: &B) -> B {
    let mut r = *a;
    for i in 0..20 {
        r[i] ^= c[i];
    }
    r
}
pub fn peer_bytes(a: &A) -> Vec<u8> {
    let mut v = a.ip().octets().to_vec();
    v.extend(a.port().to_be_bytes());
    v
}
pub fn node_bytes(n: &(B, A)) -> Vec<u8> {
    let mut v = n.0.to_vec();
    v.extend(peer_bytes(&n.1));
    v
}
pub fn nodes_bytes(ns: &[(B, A)]) -> Vec<u8> {
    ns.iter().flat_map(node_bytes).collect()
}
pub fn peer_of(x: &[u8]) -> A {
    SocketAddrV4::new(Ipv4Addr::new(x[0], x[1], x[2], x[3]), u16::from_be_bytes([x[4], x[5]]))
}

// ------------------------------------------------------------------ messages
pub fn query(q: &str, tid: &[u8], a: Vec<(Vec<u8>, V)>) -> V {
    dict(vec![(k("a"), dict(a)), (k("q"), bencode::s(q)), (k("t"), bytes(tid)), (k("y"), bencode::s("q"))])
}
pub fn q_ping(tid: &[u8], id: &B) -> V {
    query("ping", tid, vec![(k("id"), bytes(id))])
}
pub fn q_find(tid: &[u8], id: &B, target: &B) -> V {
    query("find_node", tid, vec![(k("id"), bytes(id)), (k("target"), bytes(target))])
}
pub fn q_get(tid: &[u8], id: &B, ih: &B) -> V {
    query("get_peers", tid, vec![(k("id"), bytes(id)), (k("info_hash"), bytes(ih))])
}
pub fn q_announce(tid: &[u8], id: &B, ih: &B, port: u16, token: &[u8]) -> V {
    query("announce_peer", tid, vec![(k("id"), bytes(id)), (k("info_hash"), bytes(ih)), (k("port"), int(port as i128)), (k("token"), bytes(token))])
}
pub fn response(tid: &[u8], r: Vec<(Vec<u8>, V)>) -> V {
    dict(vec![(k("r"), dict(r)), (k("t"), bytes(tid)), (k("y"), bencode::s("r"))])
}
pub fn r_ping(tid: &[u8], id: &B) -> V {
    response(tid, vec![(k("id"), bytes(id))])
}
pub fn r_find(tid: &[u8], id: &B, nodes: &[(B, A)]) -> V {
    response(tid, vec![(k("id"), bytes(id)), (k("nodes"), bytes(&nodes_bytes(nodes)))])
}
pub fn r_get_nodes(tid: &[u8], id: &B, token: &[u8], nodes: &[(B, A)]) -> V {
    response(tid, vec![(k("id"), bytes(id)), (k("nodes"), bytes(&nodes_bytes(nodes))), (k("token"), bytes(token))])
}
pub fn r_get_values(tid: &[u8], id: &B, token: &[u8], values: &[A]) -> V {
    response(tid, vec![(k("id"), bytes(id)), (k("token"), bytes(token)), (k("values"), list(values.iter().map(|v| bytes(&peer_bytes(v))).collect()))])
}
/// What a get_peers response with nodes and values says.
pub fn r_get_both(tid: &[u8], id: &B, token: &[u8], values: &[A], nodes: &[(B, A)]) -> V {
    response(tid, vec![(k("id"), bytes(id)), (k("nodes"), bytes(&nodes_bytes(nodes))), (k("token"), bytes(token)), (k("values"), list(values.iter().map(|v| bytes(&peer_bytes(v))).collect()))])
}
pub fn error(tid: &[u8]) -> V {
    dict(vec![(k("e"), list(vec![int(201), bencode::s("err")])), (k("t"), bytes(tid)), (k("y"), bencode::s("e"))])
}

/// A datagram the service sent.
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Ping { tid: Vec<u8>, id: B },
    Find { tid: Vec<u8>, id: B, target: B },
    Get { tid: Vec<u8>, id: B, ih: B },
    Announce { tid: Vec<u8>, id: B, ih: B, port: i128, token: Vec<u8>, implied: bool },
    Reply { tid: Vec<u8>, id: B, nodes: Option<Vec<(B, A)>>, token: Option<Vec<u8>>, values: Option<Vec<A>> },
    Error { tid: Vec<u8> },
}
pub fn read(x: &[u8]) -> Result<Got, Fail> {
    let bad = |w: &str| Fail { key: "bad-datagram".into(), msg: format!("the service sent {:?}: {w}", String::from_utf8_lossy(x)) };
    let p = bencode::parse(x).map_err(|_| bad("not bencode"))?;
    let v = p.value;
    let tid = v.get("t").and_then(|t| t.as_bytes()).ok_or_else(|| bad("no transaction id"))?.to_vec();
    let b20 = |v: Option<&V>, w: &str| -> Result<B, Fail> { v.and_then(|x| x.as_bytes()).and_then(|x| x.try_into().ok()).ok_or_else(|| bad(&format!("bad {w}"))) };
    match v.get("y").and_then(|y| y.as_bytes()) {
        Some(b"q") => {
            let a = v.get("a").ok_or_else(|| bad("no arguments"))?;
            let id = b20(a.get("id"), "id")?;
            match v.get("q").and_then(|q| q.as_bytes()) {
                Some(b"ping") => Ok(Got::Ping { tid, id }),
                Some(b"find_node") => Ok(Got::Find { tid, id, target: b20(a.get("target"), "target")? }),
                Some(b"get_peers") => Ok(Got::Get { tid, id, ih: b20(a.get("info_hash"), "info_hash")? }),
                Some(b"announce_peer") => Ok(Got::Announce {
                    tid,
                    id,
                    ih: b20(a.get("info_hash"), "info_hash")?,
                    port: a.get("port").and_then(|p| p.as_int()).ok_or_else(|| bad("no port"))?,
                    token: a.get("token").and_then(|p| p.as_bytes()).ok_or_else(|| bad("no token"))?.to_vec(),
                    implied: a.get("implied_port").and_then(|p| p.as_int()).unwrap_or(0) != 0,
                }),
                _ => Err(bad("unknown method")),
            }
        }
        Some(b"r") => {
            let r = v.get("r").ok_or_else(|| bad("no body"))?;
            let nodes = match r.get("nodes") {
                None => None,
                Some(n) => {
                    let n = n.as_bytes().ok_or_else(|| bad("nodes"))?;
                    if n.len() % 26 != 0 {
                        return Err(bad("length of nodes"));
                    }
                    Some(n.chunks(26).map(|c| (c[..20].try_into().unwrap(), peer_of(&c[20..]))).collect())
                }
            };
            let values = match r.get("values") {
                None => None,
                Some(n) => Some(n.as_list().ok_or_else(|| bad("values"))?.iter().map(|x| x.as_bytes().filter(|x| x.len() == 6).map(peer_of).ok_or_else(|| bad("peer"))).collect::<Result<Vec<_>, _>>()?),
            };
            Ok(Got::Reply { tid, id: b20(r.get("id"), "id")?, nodes, token: r.get("token").and_then(|t| t.as_bytes()).map(|t| t.to_vec()), values })
        }
        Some(b"e") => Ok(Got::Error { tid }),
        _ => Err(bad("unknown type")),
    }
}
pub fn recv(u: &Udp) -> Result<Vec<Got>, Fail> {
    let mut v = vec![];
    while let Some((x, from)) = u.recv() {
        ensure_eq!(from.port(), UDP_PORT, "source-port", "source port of a datagram of the service");
        v.push(read(&x)?);
    }
    Ok(v)
}


//! C32: a whole client (torrent manager, trackers, DHT together) against simulated peers, trackers and a DHT node.
use harness::bencode::{self, bytes, dict, int, list, s};
use harness::http::{self, answer, k, reply, Announce, Tracker};
use harness::krpc::{self, *};
use harness::mc::{self, fail, h, opts, Ch, Ctx, Fail, R};
use harness::net::Udp;
use harness::peer::{handshake, spec_parse, M, ME};
use harness::{ensure, ensure_eq, rt, sys};
use nargun::verif::data_structures::ID;
use nargun::verif::dht::RoutingTable;
use nargun::verif::env;
use nargun::verif::transcoding::metainfo::Torrent;
use std::collections::BTreeSet;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::time::Instant;

const DOWNLOADS: &str = "/home/gvelesa/rust/narpath";
const BS: usize = 1 << 14;
const PORT: u16 = 40001;
const INTERVAL: u64 = 30;

// ------------------------------------------------------------------ torrent
#[derive(Clone, Copy, Debug)]
enum Layout {
    Single,
    /// three files, one of them empty, sharing pieces
    Multi,
}
#[derive(Clone)]
struct Data {
    layout: Layout,
    pl: usize,
    bytes: Vec<u8>,
}
impl Data {
    fn new(layout: Layout) -> Data {
        let n = 2 * BS * 2 + BS + 7;
        Data { layout, pl: 2 * BS, bytes: (0..n).map(|i| ((i >> 14) * 77 ^ i * 31 ^ (i >> 8)) as u8).collect() }
    }
    fn pieces(&self) -> usize {
        self.bytes.len().div_ceil(self.pl)
    }
    fn piece(&self, p: usize) -> &[u8] {
        &self.bytes[p * self.pl..((p + 1) * self.pl).min(self.bytes.len())]
    }
    fn files(&self) -> Vec<(&'static str, usize, usize)> {
        let n = self.bytes.len();
        match self.layout {
            Layout::Single => vec![("name", 0, n)],
            Layout::Multi => vec![("name/d/a", 0, BS + 5), ("name/d/e/empty", BS + 5, 0), ("name/b", BS + 5, n - BS - 5)],
        }
    }
    fn torrent(&self, trackers: &[String]) -> Vec<u8> {
        let mut info = vec![(k("name"), s("name")), (k("piece length"), int(self.pl as i128)), (k("pieces"), bytes(&(0..self.pieces()).flat_map(|p| openssl::sha::sha1(self.piece(p))).collect::<Vec<u8>>()))];
        match self.layout {
            Layout::Single => info.push((k("length"), int(self.bytes.len() as i128))),
            Layout::Multi => info.push((
                k("files"),
                list(self.files().iter().map(|(n, _, l)| dict(vec![(k("length"), int(*l as i128)), (k("path"), list(n.split('/').skip(1).map(s).collect()))])).collect()),
            )),
        }
        let top = vec![(k("announce-list"), list(trackers.iter().map(|u| list(vec![s(u)])).collect())), (k("info"), dict(info))];
        bencode::encode(&dict(top))
    }
    /// Pieces completely on disk.
    fn on_disk(&self, dir: &str) -> BTreeSet<usize> {
        let f: Vec<(usize, Vec<u8>, usize)> = self.files().into_iter().map(|(n, at, len)| (at, std::fs::read(format!("{dir}/{n}")).unwrap_or_default(), len)).collect();
        (0..self.pieces())
            .filter(|p| {
                let (a, z) = (p * self.pl, p * self.pl + self.piece(*p).len());
                f.iter().all(|(at, b, len)| {
                    let (x, y) = (a.max(*at), z.min(at + len));
                    x >= y || (b.len() >= y - at && b[x - at..y - at] == self.bytes[x..y])
                })
            })
            .collect()
    }
    fn complete(&self, dir: &str) -> R {
        for (n, at, len) in self.files() {
            match std::fs::read(format!("{dir}/{n}")) {
                Ok(b) => ensure!(b == self.bytes[at..at + len], "file differs from the torrent", "{n}: {} bytes, expected {len}", b.len()),
                Err(e) => return fail("file missing after the download", format!("{n}: {e}")),
            }
        }
        Ok(0)
    }
    /// Numbers a tracker may be told when `n` pieces are stored: by whole pieces or by bytes.
    fn lefts(&self, n: usize) -> BTreeSet<u64> {
        let (t, pl) = (self.bytes.len(), self.pl);
        let mut v = BTreeSet::from([t.saturating_sub(n * pl) as u64]);
        if n > 0 {
            // the last piece may be among them
            v.insert((t - (n - 1) * pl - self.piece(self.pieces() - 1).len()) as u64);
        }
        v
    }
}

// ------------------------------------------------------------------ remote peers
#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Tracker,
    Dht,
    /// announces itself to the client's DHT service
    Announce,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Quirk {
    None,
    /// nobody listens there at first
    Late,
    /// leaves after its first block, once
    Leaves,
    /// its first block is wrong
    Corrupts,
    /// chokes after its first block, for a while
    Chokes,
    /// never answers a request and leaves after half a minute (while it stays, it and others that want its blocks
    /// compete at timers of equal phase: exact virtual time would let the same one win for ever)
    Silent,
    /// answers as the peer of another torrent
    Foreign,
    /// accepts and says nothing
    Mute,
    /// announces pieces one by one and in small segments
    Haves,
    /// unchokes before it says what it has
    UnchokesFirst,
    /// sends things nobody asked for around its answers
    Noisy,
}
#[derive(Clone, Copy, Debug)]
struct Far {
    via: Via,
    has: u32,
    /// tells the client where its DHT node is
    port: bool,
    quirk: Quirk,
}
impl Far {
    fn useful(&self) -> bool {
        !matches!(self.quirk, Quirk::Silent | Quirk::Foreign | Quirk::Mute)
    }
}
fn far_addr(i: usize) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, 3, 0, i as u8 + 1), 7001 + i as u16)
}
fn node_addr() -> SocketAddrV4 {
    // the DHT node runs on the host of the first peer: a port message names a port of the sender's host
    SocketAddrV4::new(*far_addr(0).ip(), 6999)
}
#[derive(Default)]
struct Log {
    fail: Option<Fail>,
    id: Option<Vec<u8>>,
    connects: Vec<u32>,
    /// (peer, piece, begin) of every answered request
    sent: Vec<(usize, usize, usize)>,
    announces: Vec<Vec<(Instant, Announce)>>,
    asked: u32,
    pinged: u32,
    dht_announced: u32,
    node_got: u32,
}
type Shared = Arc<Mutex<Log>>;
fn blame(l: &Shared, f: Fail) {
    l.lock().unwrap().fail.get_or_insert(f);
}

/// The program names itself alike to everybody.
fn same_id(l: &Shared, id: &[u8]) -> R {
    ensure_eq!(id.len(), 20, "peer id of another length", "peer id");
    let was = l.lock().unwrap().id.get_or_insert(id.to_vec()).clone();
    ensure_eq!(id, was, "goes by two peer ids", "peer id");
    Ok(0)
}

async fn serve(i: usize, f: Far, d: Data, ih: [u8; 20], log: Shared) {
    if f.quirk == Quirk::Late {
        tokio::time::sleep(Duration::from_secs(20)).await;
    }
    let l = TcpListener::bind(SocketAddr::V4(far_addr(i))).await.expect("bind");
    let mut odd = matches!(f.quirk, Quirk::Leaves | Quirk::Corrupts | Quirk::Chokes);
    loop {
        let Ok((c, _)) = l.accept().await else { return };
        log.lock().unwrap().connects[i] += 1;
        if let Err(e) = session(i, f, &d, ih, c, &log, &mut odd).await {
            blame(&log, e);
            return;
        }
    }
}
async fn session(i: usize, f: Far, d: &Data, ih: [u8; 20], mut c: TcpStream, log: &Shared, odd: &mut bool) -> Result<(), Fail> {
    let mut b = [0u8; 68];
    if c.read_exact(&mut b).await.is_err() {
        return Ok(());
    }
    let id: [u8; 20] = b[48..].try_into().unwrap();
    ensure_eq!(b.to_vec(), handshake(ih, id).to_vec(), "wrong handshake sent", "handshake");
    same_id(log, &id)?;
    // every host has its own latency: two whose timers coincide to the millisecond for ever do not exist
    tokio::time::sleep(Duration::from_millis(30 + 41 * i as u64)).await;
    match f.quirk {
        Quirk::Mute => {
            let _ = c.read(&mut b).await;
            return Ok(());
        }
        Quirk::Foreign => {
            let _ = c.write_all(&handshake([9; 20], [b'r'; 20])).await;
            let _ = c.read(&mut b).await;
            return Ok(());
        }
        _ => {
            let _ = c.write_all(&handshake(ih, [b'r'; 20])).await;
        }
    }
    let has = |p: usize| f.has >> p & 1 == 1;
    let mut hello = vec![];
    if f.port {
        hello.push(M::Port(node_addr().port()));
    }
    if f.quirk == Quirk::UnchokesFirst {
        hello.push(M::Unchoke);
    }
    if f.quirk == Quirk::Haves {
        hello.extend((0..d.pieces()).filter(|p| has(*p)).map(|p| M::Have(p as u32)));
    } else {
        let mut bits = vec![0u8; d.pieces().div_ceil(8)];
        for p in (0..d.pieces()).filter(|p| has(*p)) {
            bits[p / 8] |= 0x80 >> (p % 8);
        }
        hello.push(M::Bitfield(bits));
    }
    // as the protocol has it, others unchoke who tells them of an interest
    let mut choking = f.quirk != Quirk::UnchokesFirst;
    let small = f.quirk == Quirk::Haves;
    for m in hello {
        send(&mut c, &m, small).await;
    }
    let mut buf = vec![];
    let mut x = vec![0u8; 1 << 16];
    loop {
        let n = match c.read(&mut x).await {
            Ok(n) if n > 0 => n,
            _ => return Ok(()),
        };
        buf.extend_from_slice(&x[..n]);
        let (ms, _) = spec_parse(&buf);
        let used: usize = ms.iter().map(|m| m.wire().len()).sum();
        buf.drain(..used);
        for m in ms {
            if choking && m == M::Interested {
                choking = false;
                send(&mut c, &M::Unchoke, false).await;
            }
            let M::Request(p, at, n) = m else { continue };
            ensure!(!choking, "asked while choked", "peer {i}: piece {p}");
            let (p, at, n) = (p as usize, at as usize, n as usize);
            ensure!(p < d.pieces() && at % BS == 0 && at < d.piece(p).len() && n == BS.min(d.piece(p).len() - at), "asked for a block that does not exist", "piece {p} at {at}, {n} bytes");
            ensure!(has(p), "asked a peer for a piece it did not announce", "peer {i}: piece {p}");
            if f.quirk == Quirk::Silent {
                tokio::time::sleep(Duration::from_secs(30)).await;
                return Ok(());
            }
            let mut data = d.piece(p)[at..at + n].to_vec();
            if *odd && f.quirk == Quirk::Corrupts {
                data[n / 2] ^= 4;
                *odd = false;
            } else {
                log.lock().unwrap().sent.push((i, p, at));
            }
            if f.quirk == Quirk::Noisy {
                for m in [M::KeepAlive, M::Piece(p as u32, at as u32 + 1, vec![1; 5]), M::Piece(77, 0, vec![2; BS]), M::Have(99), M::Interested, M::NotInterested, M::Request(0, 0, 16384), M::Cancel(0, 0, 16384)] {
                    send(&mut c, &m, false).await;
                }
            }
            send(&mut c, &M::Piece(p as u32, at as u32, data), small).await;
            if *odd && f.quirk == Quirk::Leaves {
                *odd = false;
                return Ok(());
            }
            if *odd && f.quirk == Quirk::Chokes {
                *odd = false;
                send(&mut c, &M::Choke, false).await;
                tokio::time::sleep(Duration::from_secs(25)).await;
                // what was asked before the choke counts as refused
                while let Ok(Ok(n)) = tokio::time::timeout(Duration::from_millis(1), c.read(&mut x)).await {
                    if n == 0 {
                        return Ok(());
                    }
                }
                buf.clear();
                send(&mut c, &M::Unchoke, false).await;
                break;
            }
        }
    }
}
async fn send(c: &mut TcpStream, m: &M, small: bool) {
    let w = m.wire();
    if small && w.len() < 100 {
        for x in w.chunks(3) {
            let _ = c.write_all(x).await;
            rt::settle().await;
        }
    } else {
        let _ = c.write_all(&w).await;
    }
}

// ------------------------------------------------------------------ trackers
#[derive(Clone, Copy, Debug, PartialEq)]
enum Trk {
    Up,
    /// refuses connections for the first ten seconds
    DownFirst,
    /// first answers are useless
    FailsFirst,
    Never,
}
async fn track(n: usize, t: Trk, give: Vec<SocketAddrV4>, log: Shared) {
    if t == Trk::Never {
        return;
    }
    if t == Trk::DownFirst {
        tokio::time::sleep(Duration::from_secs(10)).await;
    }
    let l = Tracker::new(tracker_addr(n)).await;
    let mut bad = t == Trk::FailsFirst;
    loop {
        match l.next(Duration::from_secs(100_000)).await {
            Err(e) => return blame(&log, e),
            Ok(None) => return,
            Ok(Some((mut c, r))) => {
                let a = match http::read(&r, "") {
                    Ok(a) => a,
                    Err(e) => return blame(&log, e),
                };
                if let Err(e) = same_id(&log, &a.peer_id) {
                    return blame(&log, e);
                }
                if bad {
                    bad = false;
                    answer(&mut c, "200 OK", b"d14:failure reason4:busye").await;
                    continue;
                }
                log.lock().unwrap().announces[n].push((r.at, a));
                answer(&mut c, "200 OK", &reply(INTERVAL, &give, Some(b"tid"))).await;
            }
        }
    }
}
fn tracker_addr(n: usize) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, 0, 1, n as u8 + 1), 6969)
}

// ------------------------------------------------------------------ DHT node
fn node_id(ih: &[u8; 20]) -> B {
    let mut x = *ih;
    x[5] ^= 0x40;
    x
}
async fn node(ih: [u8; 20], values: Vec<SocketAddrV4>, log: Shared) {
    let u = Udp::new(node_addr());
    let id = node_id(&ih);
    loop {
        tokio::time::sleep(Duration::from_millis(100)).await;
        let got = match krpc::recv(&u) {
            Ok(g) => g,
            Err(e) => return blame(&log, e),
        };
        for g in got {
            let mut l = log.lock().unwrap();
            l.node_got += 1;
            match g {
                Got::Ping { tid, .. } => {
                    l.pinged += 1;
                    u.send(svc_addr(), &bencode::encode(&r_ping(&tid, &id)));
                }
                Got::Find { tid, .. } => u.send(svc_addr(), &bencode::encode(&r_find(&tid, &id, &[(id, node_addr())]))),
                Got::Get { tid, ih: i, .. } => {
                    if i != ih {
                        l.fail.get_or_insert(Fail { key: "searched for something else".into(), msg: format!("{i:?}") });
                    }
                    l.asked += 1;
                    u.send(
                        svc_addr(),
                        &bencode::encode(&if values.is_empty() { r_get_nodes(&tid, &id, b"tok", &[(id, node_addr())]) } else { r_get_values(&tid, &id, b"tok", &values) }),
                    );
                }
                Got::Announce { ih: i, port, token, .. } => {
                    if i != ih || port != PORT as i128 || token != b"tok" {
                        l.fail.get_or_insert(Fail { key: "announced wrongly to the DHT".into(), msg: format!("info-hash {i:?} port {port} token {token:?}") });
                    }
                    l.dht_announced += 1;
                }
                _ => (),
            }
        }
    }
}
/// A peer announces itself to the client's DHT service, again and again until it was reached.
async fn announce_self(i: usize, ih: [u8; 20], log: Shared) {
    let u = Udp::new(SocketAddrV4::new(*far_addr(i).ip(), 9999));
    let id: B = [i as u8 + 0x21; 20];
    u.send(svc_addr(), &bencode::encode(&q_get(b"g", &id, &ih)));
    rt::settle().await;
    let got = match krpc::recv(&u) {
        Ok(g) => g,
        Err(e) => return blame(&log, e),
    };
    for g in got {
        if let Got::Reply { token: Some(t), .. } = g {
            u.send(svc_addr(), &bencode::encode(&q_announce(b"a", &id, &ih, far_addr(i).port(), &t)));
            return;
        }
    }
    blame(&log, Fail { key: "no token".into(), msg: "a get_peers query got no token".into() });
}

// ------------------------------------------------------------------ the world
#[derive(Clone, Debug)]
struct Case {
    layout: Layout,
    far: Vec<Far>,
    trk: Vec<Trk>,
    /// the node is in the routing table of the previous run
    saved: bool,
    /// shut down at this time instead of after the download
    stop_ms: Option<u64>,
    o: (bool, bool),
}
impl Case {
    /// Peers the client can learn of, at some time.
    fn reachable(&self) -> Vec<usize> {
        let mut r: BTreeSet<usize> = (0..self.far.len()).filter(|i| self.far[*i].via == Via::Announce || (self.far[*i].via == Via::Tracker && self.trk.iter().any(|t| *t != Trk::Never))).collect();
        // a port message names a node on the sender's own host: only the first peer has one
        let node = self.saved || (r.contains(&0) && self.far[0].port && !matches!(self.far[0].quirk, Quirk::Foreign | Quirk::Mute));
        if node {
            r.extend((0..self.far.len()).filter(|i| self.far[*i].via == Via::Dht));
        }
        r.into_iter().collect()
    }
    fn node_known(&self) -> bool {
        self.saved || (self.reachable().contains(&0) && self.far[0].port && self.far[0].via != Via::Dht && !matches!(self.far[0].quirk, Quirk::Foreign | Quirk::Mute))
    }
}
async fn live(case: &Case, again: bool) -> R {
    let d = Data::new(case.layout);
    let dir = sys::scratch();
    if !again {
        let _ = std::fs::remove_dir_all(format!("{dir}/dl"));
        let _ = std::fs::remove_dir_all(format!("{dir}/home"));
    }
    let (dl, home) = (format!("{dir}/dl"), format!("{dir}/home"));
    std::fs::create_dir_all(&dl).unwrap();
    std::fs::create_dir_all(&home).unwrap();
    sys::with(|e| {
        e.rewrite.clear();
        e.rewrite.push((DOWNLOADS.into(), dl.clone()));
        e.rewrite.push(("/nargun-home".into(), home.clone()));
    });
    let urls: Vec<String> = (0..case.trk.len()).map(|n| format!("http://{}/announce", tracker_addr(n))).collect();
    let t = d.torrent(&urls);
    let ih: [u8; 20] = Torrent::from_buf(&t).expect("torrent").info_hash.as_byte_ref().try_into().unwrap();
    let file = format!("{dir}/x.torrent");
    std::fs::write(&file, t).unwrap();
    if case.saved {
        let mut rt = RoutingTable::new().await;
        rt.touch_node(ID::new(node_id(&ih)), node_addr());
        rt.store().await;
    }
    let log: Shared = Arc::new(Mutex::new(Log { connects: vec![0; case.far.len()], announces: vec![vec![]; case.trk.len()], ..Default::default() }));
    for (i, f) in case.far.iter().enumerate() {
        tokio::spawn(serve(i, *f, d.clone(), ih, log.clone()));
    }
    let by = |v: Via| (0..case.far.len()).filter(|i| case.far[*i].via == v).map(far_addr).collect::<Vec<_>>();
    for (n, t) in case.trk.iter().enumerate() {
        tokio::spawn(track(n, *t, by(Via::Tracker), log.clone()));
    }
    tokio::spawn(node(ih, by(Via::Dht), log.clone()));
    rt::settle().await;
    // the program itself
    let t0 = Instant::now();
    let interrupt = env::state(|s| {
        *s = env::State { file, ports: (PORT, PORT + 1), ..Default::default() };
        s.interrupt.clone()
    });
    let mut program = tokio::spawn(nargun::verif::main());
    for (i, f) in case.far.iter().enumerate() {
        if f.via == Via::Announce {
            let log = log.clone();
            tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(1500)).await;
                announce_self(i, ih, log).await
            });
        }
    }
    let what = || format!("{case:?}");
    let check = |log: &Shared| -> Result<(), Fail> {
        mc::no_panic()?;
        match log.lock().unwrap().fail.take() {
            Some(mut f) => {
                f.msg = format!("{case:?}: {}", f.msg);
                Err(f)
            }
            None => Ok(()),
        }
    };
    let want: BTreeSet<usize> = case.reachable().iter().filter(|i| case.far[**i].useful()).flat_map(|i| (0..d.pieces()).filter(|p| case.far[*i].has >> p & 1 == 1)).collect();
    let all = want.len() == d.pieces();
    let mut stored_at = None;
    let deadline = case.stop_ms.map(Duration::from_millis).unwrap_or(Duration::from_secs(600));
    // with a choice of moments, the shutdown comes at that very moment
    let step = Duration::from_millis(250);
    while t0.elapsed() < deadline {
        tokio::time::sleep(step.min(deadline - t0.elapsed())).await;
        check(&log)?;
        ensure!(!program.is_finished(), "the program ends by itself", "{}", what());
        if case.stop_ms.is_none() && d.on_disk(&dl) == want {
            if stored_at.is_none() {
                stored_at = Some(Instant::now());
            }
            break;
        }
    }
    if case.stop_ms.is_none() {
        let Some(at) = stored_at else {
            let l = log.lock().unwrap();
            return fail("the download never completes", format!("{}: stored {:?} of {want:?}, connects {:?}, blocks sent {:?}, node pinged {} asked {}", what(), d.on_disk(&dl), l.connects, l.sent.len(), l.pinged, l.asked));
        };
        // one more round of announces
        tokio::time::sleep(Duration::from_secs(2 * INTERVAL + 70)).await;
        check(&log)?;
        let l = log.lock().unwrap();
        for (n, t) in case.trk.iter().enumerate() {
            if *t == Trk::Never {
                continue;
            }
            let a = &l.announces[n];
            let ev = |e: &str| a.iter().filter(|x| x.1.event.as_deref() == Some(e)).count();
            let last = &a.last().unwrap().1;
            ensure!(d.lefts(want.len()).contains(&last.left), "wrong number of bytes left announced", "{}: tracker {n} was last told {} with {} of {} pieces stored", what(), last.left, want.len(), d.pieces());
            ensure_eq!(ev("started"), 1, "started not announced once", "{}: tracker {n}, announces of a start", what());
            if all {
                let (t, c) = match a.iter().find(|x| x.1.event.as_deref() == Some("completed")) {
                    Some(x) => x,
                    None => return fail("completion not announced", format!("{}: tracker {n} was never told", what())),
                };
                ensure_eq!(ev("completed"), 1, "completion announced more than once", "{}: tracker {n}, announces of completion", what());
                ensure_eq!(c.left, 0, "wrong number of bytes left announced", "{}: tracker {n}, with completion", what());
                let first = a[0].0.max(at);
                ensure!(again || *t <= first + Duration::from_secs(2), "completion announced late", "{}: tracker {n}: {:?} after it was known", what(), *t - first);
            } else {
                ensure_eq!(ev("completed"), 0, "completion announced although pieces are missing", "{}: tracker {n}", what());
            }
        }
        for i in case.reachable() {
            ensure!(l.connects[i] > 0, "a peer that was found is never connected", "{}: peer {i}", what());
        }
        if case.node_known() {
            ensure!(l.pinged > 0 && l.asked > 0 && l.dht_announced > 0, "a known DHT node is not used", "{}: pings {} searches {} announces {}", what(), l.pinged, l.asked, l.dht_announced);
        } else {
            ensure_eq!(l.node_got, 0, "a node nobody named was contacted", "{}", what());
        }
    }
    // every announce
    let before_stop: Vec<usize> = log.lock().unwrap().announces.iter().map(|a| a.len()).collect();
    interrupt.notify_one();
    match tokio::time::timeout(Duration::from_secs(300), &mut program).await {
        Err(_) => return fail("waiting for the shutdown never ends", what()),
        Ok(Ok(Ok(()))) => (),
        Ok(e) => return fail("the program fails at its end", format!("{}: {e:?}", what())),
    }
    // the process is gone: what is saved now is all that will be
    let left_home = format!("{dir}/left");
    let _ = std::fs::remove_dir_all(&left_home);
    std::fs::create_dir_all(format!("{left_home}/.nargun")).unwrap();
    for f in std::fs::read_dir(format!("{home}/.nargun")).into_iter().flatten().flatten() {
        let _ = std::fs::copy(f.path(), format!("{left_home}/.nargun/{}", f.file_name().to_string_lossy()));
    }
    sys::with(|e| e.rewrite[1].1 = left_home);
    check(&log)?;
    let disk = d.on_disk(&dl);
    {
        let l = log.lock().unwrap();
        for (n, a) in l.announces.iter().enumerate() {
            let mut least = u64::MAX;
            let ok: BTreeSet<u64> = (0..=d.pieces()).flat_map(|n| d.lefts(n)).collect();
            for (i, (_, x)) in a.iter().enumerate() {
                ensure!(x.info_hash == ih && x.port == PORT as u64, "announced somebody else's data", "{}: {x:?}", what());
                ensure!(x.left <= least && ok.contains(&x.left), "wrong number of bytes left announced", "{}: {} after {least}", what(), x.left);
                ensure!(i > 0 || x.left == d.bytes.len() as u64 || case.trk[n] != Trk::Up, "wrong number of bytes left announced", "{}: {} at the start", what(), x.left);
                least = x.left;
                let e = x.event.as_deref();
                ensure!(e != Some("stopped") || i + 1 == a.len(), "announce after stopped", "{}: tracker {n}", what());
                ensure!(e != Some("stopped") || i >= before_stop[n], "stopped announced while running", "{}: tracker {n}", what());
            }
            // a session the tracker answered must be closed
            if before_stop[n] > 0 {
                ensure!(a.last().unwrap().1.event.as_deref() == Some("stopped"), "a started session is not stopped at shutdown", "{}: tracker {n}: {:?}", what(), a.iter().map(|x| x.1.event.clone()).collect::<Vec<_>>());
                ensure!((0..=disk.len()).any(|n| d.lefts(n).contains(&a.last().unwrap().1.left)), "fewer bytes left announced than are missing", "{}: tracker {n}: {} with {disk:?} stored", what(), a.last().unwrap().1.left);
            }
        }
    }
    if all && case.stop_ms.is_none() {
        d.complete(&dl)?;
    }
    // pieces known stored stay, and a node that answered is known to the next start
    let l = log.lock().unwrap();
    let knows = case.saved || l.pinged > 0;
    let got: Vec<u64> = l.announces.iter().map(|a| a.len() as u64).collect();
    drop(l);
    if case.stop_ms.is_none() && knows {
        let t = RoutingTable::new().await;
        ensure!(t.iter_nodes().any(|n| n.addr == node_addr()), "a known node is not in the saved routing table", "{}", what());
    }
    tokio::time::sleep(Duration::from_secs(1)).await;
    ensure!(disk.is_subset(&d.on_disk(&dl)), "a stored piece is damaged by the shutdown", "{}", what());
    mc::no_panic()?;
    Ok(h((disk, got)))
}
fn run(case: Case) -> R {
    run_on(case, false)
}
/// again: on what an earlier run left
fn run_on(case: Case, again: bool) -> R {
    rt::run(rt::RtOpts { sched: case.o.0, select: case.o.1, preempt: case.o.1, poll_limit: 2_000_000 }, async move { live(&case, again).await })
}
const QUIRKS: [Quirk; 11] = [Quirk::None, Quirk::Late, Quirk::Leaves, Quirk::Corrupts, Quirk::Chokes, Quirk::Silent, Quirk::Foreign, Quirk::Mute, Quirk::Haves, Quirk::UnchokesFirst, Quirk::Noisy];
const VIAS: [Via; 3] = [Via::Tracker, Via::Dht, Via::Announce];
fn c32(ctx: &mut Ctx) {
    ctx.assume("main() itself runs, with stand-ins for the command line, the router and the interrupt key; the console is outside");
    let quick = ctx.quick();
    // who tells of whom, who has what
    let masks: Vec<u32> = if quick { vec![7, 5, 2] } else { (0..8).collect() };
    ctx.explore("sources", opts(), move |ch| {
        let layout = if ch.pick(2) == 0 { Layout::Single } else { Layout::Multi };
        let saved = ch.pick(2) == 1;
        let trk = [vec![Trk::Up], vec![Trk::DownFirst], vec![Trk::FailsFirst], vec![Trk::Up, Trk::Up], vec![Trk::Never, Trk::Up], vec![Trk::Never]][ch.pick(6)].clone();
        let far = (0..2).map(|i| Far { via: VIAS[ch.pick(3)], has: masks[ch.pick(masks.len())], port: i == 0 && ch.pick(2) == 0, quirk: Quirk::None }).collect();
        let case = Case { layout, far, trk, saved, stop_ms: None, o: (false, false) };
        ch.note(|| format!("{case:?}"));
        run(case)
    });
    // what peers do
    ctx.explore("behaviours", opts(), move |ch| {
        let q: Vec<Quirk> = (0..2).map(|_| QUIRKS[ch.pick(QUIRKS.len())]).collect();
        let (a, b) = [(7, 7), (3, 6), (7, 0), (1, 6)][ch.pick(4)];
        let v = [(Via::Tracker, Via::Tracker), (Via::Tracker, Via::Dht)][ch.pick(2)];
        let layout = if ch.pick(if quick { 1 } else { 2 }) == 0 { Layout::Multi } else { Layout::Single };
        let case = Case { layout, far: vec![Far { via: v.0, has: a, port: true, quirk: q[0] }, Far { via: v.1, has: b, port: false, quirk: q[1] }], trk: vec![Trk::Up], saved: false, stop_ms: None, o: (false, false) };
        ch.note(|| format!("{case:?}"));
        run(case)
    });
    // the shutdown at any moment
    let fine = ctx.by(25, 5);
    ctx.each("shutdown", ctx.by(8000 / 25, 12000 / 5) * 2, move |i| {
        let far = vec![Far { via: Via::Tracker, has: 7, port: true, quirk: if i % 2 == 0 { Quirk::None } else { Quirk::Chokes } }, Far { via: Via::Dht, has: 6, port: false, quirk: Quirk::Haves }];
        run(Case { layout: Layout::Multi, far, trk: vec![Trk::Up, Trk::FailsFirst], saved: i % 4 < 2, stop_ms: Some(i / 2 * fine), o: (false, false) })
    });
    // stopped and started again on what the first run left
    let (lo, fine) = (900, ctx.by(61, 11));
    ctx.each("restart", ctx.by(4500 / 61, 6000 / 11) * 2, move |i| {
        let far = vec![Far { via: Via::Tracker, has: 7, port: true, quirk: if i % 2 == 0 { Quirk::None } else { Quirk::Corrupts } }, Far { via: Via::Dht, has: 6, port: false, quirk: Quirk::Haves }];
        let mut case = Case { layout: if i % 4 < 2 { Layout::Multi } else { Layout::Single }, far, trk: vec![Trk::Up], saved: false, stop_ms: Some(lo + i / 2 * fine), o: (false, false) };
        let a = run(case.clone())?;
        case.stop_ms = None;
        case.saved = rt::run(rt::RtOpts::default(), async { RoutingTable::new().await.iter_nodes().any(|n| n.addr == node_addr()) });
        Ok(h((a, run_on(case, true)?)))
    });
    // the order in which tasks run
    for (n, o) in [(true, false), (false, true)].into_iter().enumerate() {
        ctx.explore(&format!("task-order-{n}"), opts().dev(ctx.by(1, 1)), move |ch| {
            let far = vec![Far { via: Via::Tracker, has: 3, port: true, quirk: Quirk::None }, Far { via: Via::Dht, has: 6, port: false, quirk: Quirk::None }];
            let stop_ms = [None, Some(1003), Some(3100)][ch.pick(3)];
            run(Case { layout: Layout::Single, far, trk: vec![Trk::Up], saved: false, stop_ms, o })
        });
    }
}
fn main() {
    mc::main(&[("C32", c32)]);
}

//! C25-C27: the tracker client against simulated HTTP trackers under virtual time.
use harness::bencode::{self, bytes, dict, int, list, s, V};
use harness::mc::{self, h, opts, Ch, Ctx, Fail, R};
use harness::http::*;
use harness::{ensure, ensure_eq, rt};
use nargun::verif::data_structures::ID;
use nargun::verif::transcoding::metainfo::Torrent;
use nargun::verif::peers::active_peers::Peers;
use nargun::verif::shutdown;
use nargun::verif::tracker::spawn_tracker_managers;
use std::collections::BTreeSet;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::broadcast;
use tokio::time::Instant;

type A = SocketAddrV4;
type B = [u8; 20];
const RETRY: u64 = 64;
const TIMEOUT: u64 = 128;

fn tracker_addr(n: u8) -> A {
    SocketAddrV4::new(Ipv4Addr::new(10, 0, 1, n), 6969)
}

// ------------------------------------------------------------------ torrent and client
#[derive(Clone)]
struct Setup {
    urls: Vec<Vec<String>>,
    piece_length: u64,
    length: u64,
    multi: bool,
    peer_id: B,
    port: u16,
    downloaded: u64,
}
impl Setup {
    fn new(url: &str) -> Self {
        Setup { urls: vec![vec![url.to_string()]], piece_length: 100, length: 250, multi: false, peer_id: [b'p'; 20], port: 6881, downloaded: 0 }
    }
    fn pieces(&self) -> u64 {
        self.length.div_ceil(self.piece_length)
    }
    fn left(&self, downloaded: u64) -> u64 {
        self.length.saturating_sub(downloaded.saturating_mul(self.piece_length))
    }
    fn torrent(&self) -> Torrent {
        let mut info = vec![(k("name"), s("n")), (k("piece length"), int(self.piece_length as i128)), (k("pieces"), bytes(&vec![7u8; 20 * self.pieces() as usize]))];
        if self.multi {
            let a = self.length / 3;
            info.push((k("files"), list([a, self.length - a].iter().enumerate().map(|(i, l)| dict(vec![(k("length"), int(*l as i128)), (k("path"), list(vec![s(&format!("f{i}"))]))])).collect())));
        } else {
            info.push((k("length"), int(self.length as i128)));
        }
        let top = vec![(k("announce-list"), list(self.urls.iter().map(|t| list(t.iter().map(|u| s(u)).collect())).collect())), (k("info"), dict(info))];
        Torrent::from_buf(&bencode::encode(&dict(top))).expect("torrent")
    }
}

struct Client {
    peers: Peers,
    info_hash: ID,
    downloaded: Arc<AtomicU64>,
    completed: Option<broadcast::Sender<()>>,
    shutdown: Option<shutdown::Sender>,
    waiter: Option<shutdown::AliveTaskWaiter>,
}
impl Client {
    /// info_hash: replaces the one of the torrent
    fn start(su: &Setup, info_hash: Option<B>) -> Client {
        let mut t = su.torrent();
        if let Some(i) = info_hash {
            t.info_hash = ID::new(i);
        }
        let peers = Peers::new(&t.info_hash);
        let (tx, rx) = shutdown::channel();
        let (c, _) = broadcast::channel(4);
        let downloaded = Arc::new(AtomicU64::new(su.downloaded));
        spawn_tracker_managers(&t, &ID::new(su.peer_id), &peers, downloaded.clone(), &c, su.port, rx);
        Client { peers, info_hash: t.info_hash, downloaded, completed: Some(c), shutdown: Some(tx), waiter: None }
    }
    fn pool(&self) -> BTreeSet<A> {
        self.peers.peer_addresses().iter().map(|p| *p.addr()).collect()
    }
    fn stop(&mut self) {
        if let Some(s) = self.shutdown.take() {
            self.waiter = Some(s.send());
        }
    }
}

fn peer(n: u8) -> A {
    SocketAddrV4::new(Ipv4Addr::new(10, 9, n, 200), 6000 + n as u16)
}
// ------------------------------------------------------------------ C25
fn secs(a: u64, b: u64) -> Duration {
    Duration::from_millis(a * 1000 + b)
}
fn check(a: &Announce, su: &Setup, ih: &B, left: &[u64], event: &[Option<&str>], tid: &[Option<Vec<u8>>]) -> Result<(), Fail> {
    ensure_eq!(a.info_hash, ih.to_vec(), "wrong info_hash announced", "info_hash");
    ensure_eq!(a.peer_id, su.peer_id.to_vec(), "wrong peer_id announced", "peer_id");
    ensure_eq!(a.port, su.port as u64, "wrong port announced", "port");
    ensure!(left.contains(&a.left), "wrong number of bytes left announced", "{} instead of {left:?}", a.left);
    ensure_eq!(a.compact, b"1".to_vec(), "compact mode not asked for", "compact");
    ensure!(event.contains(&a.event.as_deref()), "wrong event announced", "{:?} instead of {event:?}", a.event);
    ensure!(tid.contains(&a.tracker_id), "tracker id not sent back unchanged", "{:?} instead of {tid:?}", a.tracker_id.as_ref().map(|t| String::from_utf8_lossy(t).to_string()));
    Ok(())
}
struct Url {
    url: &'static str,
    path: &'static str,
    query: &'static str,
    port: u16,
}
const URLS: [Url; 10] = [
    Url { url: "http://10.0.1.1:6969/announce", path: "/announce", query: "", port: 6969 },
    Url { url: "http://10.0.1.1:6969/announce?passkey=0123abc", path: "/announce", query: "passkey=0123abc", port: 6969 },
    Url { url: "http://10.0.1.1:6969/a%20b/ann.php?k=%00%ff%26&info=1", path: "/a%20b/ann.php", query: "k=%00%ff%26&info=1", port: 6969 },
    Url { url: "http://10.0.1.1:6969", path: "/", query: "", port: 6969 },
    Url { url: "http://10.0.1.1:6969/", path: "/", query: "", port: 6969 },
    Url { url: "http://10.0.1.1/announce", path: "/announce", query: "", port: 80 },
    Url { url: "http://10.0.1.1/x/y/announce?", path: "/x/y/announce", query: "", port: 80 },
    Url { url: "http://10.0.1.1:6969/announce?a=b&", path: "/announce", query: "a=b&", port: 6969 },
    Url { url: "http://10.0.1.1:6969/ann?info_hash", path: "/ann", query: "info_hash", port: 6969 },
    Url { url: "http://10.0.1.1:6969/ann;v=1?q=?", path: "/ann;v=1", query: "q=?", port: 6969 },
];
const TIDS: [Option<&[u8]>; 8] = [None, Some(b"abc"), Some(b""), Some(b"a b&c=d"), Some("é%41+/?#".as_bytes()), Some(b"\r\n GET / HTTP/1.1"), Some(b"\x00\x7f~-._"), Some(b"0")];

/// A whole little session: started, two periodic announces, completed, stopped; every announce checked.
fn session(su: &Setup, u: &Url, ih: B, tid: Option<&'static [u8]>, steps: &[u64], complete: bool) -> R {
    let su = su.clone();
    let steps = steps.to_vec();
    let (path, query, port) = (u.path, u.query, u.port);
    rt::run(rt::RtOpts::default(), async move {
        let t = Tracker::new(SocketAddrV4::new(Ipv4Addr::new(10, 0, 1, 1), port)).await;
        let mut c = Client::start(&su, Some(ih));
        let mut known: Option<Vec<u8>> = None;
        let mut down = su.downloaded;
        for (i, d) in steps.iter().enumerate() {
            let (mut conn, r) = t.next(Duration::from_secs(200)).await?.ok_or(Fail { key: "no-announce".into(), msg: format!("announce {i} missing") })?;
            ensure_eq!(r.path, path.to_string(), "announced to another path", "path");
            let a = read(&r, query)?;
            let ev = if i == 0 { Some("started") } else if i + 1 == steps.len() { Some("stopped") } else if i == 1 && complete { Some("completed") } else { None };
            check(&a, &su, &ih, &[su.left(down)], &[ev], &[known.clone()])?;
            down = *d;
            c.downloaded.store(down, Ordering::Relaxed);
            answer(&mut conn, "200 OK", &reply(100, &[], tid)).await;
            known = tid.map(|t| t.to_vec());
            rt::settle().await;
            if i == 0 && complete {
                let _ = c.completed.as_ref().unwrap().send(());
            }
            if i + 2 == steps.len() {
                c.stop();
            }
        }
        ensure!(t.next(Duration::from_secs(500)).await?.is_none(), "announce after stopped", "");
        Ok(h((path, su.left(down), tid)))
    })
}
fn c25(ctx: &mut Ctx) {
    ctx.assume("trackers are reached by IP address over plain HTTP; name resolution and TLS are outside the model");
    // every byte value at every position of both ids
    ctx.each("ids", 256 * ctx.by(1, 8), |i| {
        let (v, stride) = ((i % 256) as u8, (2 * (i / 256) + 13) as u8);
        let ih: B = std::array::from_fn(|j| v.wrapping_add(stride.wrapping_mul(j as u8)));
        let mut su = Setup::new(URLS[0].url);
        su.peer_id = std::array::from_fn(|j| v.wrapping_mul(1).wrapping_sub((stride ^ 0x40).wrapping_mul(j as u8)).wrapping_add(7));
        session(&su, &URLS[0], ih, None, &[0, 0], false)
    });
    let ports = [0u16, 1, 6881, 65535];
    ctx.explore("urls", opts().fresh(false), move |ch| {
        let u = &URLS[ch.pick(URLS.len())];
        let tid = TIDS[ch.pick(TIDS.len())];
        let mut su = Setup::new(u.url);
        su.port = ports[ch.pick(ports.len())];
        session(&su, u, [0xf3; 20], tid, &[0, 1, 1], false)
    });
    ctx.explore("events", opts().fresh(false), move |ch| {
        let u = &URLS[ch.pick(URLS.len())];
        let complete = ch.pick(2) == 1;
        let n = ch.pick(3);
        let tid = TIDS[ch.pick(2)];
        let mut su = Setup::new(u.url);
        su.downloaded = ch.pick(3) as u64;
        let mut steps = vec![su.pieces(); 2 + n];
        if n > 0 && ch.pick(2) == 1 {
            steps = vec![su.pieces() - 1; 2 + n];
        }
        session(&su, u, [0x11; 20], tid, &steps, complete && n > 0)
    });
    // many pieces
    ctx.explore("left-many", opts().fresh(false), move |ch| {
        let mut su = Setup::new(URLS[0].url);
        let n = [257u64, 65_536, 65_600, 140_000][ch.pick(4)];
        su.piece_length = [1u64, 16_384, 1 << 22][ch.pick(3)];
        su.length = su.piece_length * n - [0, su.piece_length / 2][ch.pick(2)];
        let at = [0, 255, 256, 65_535, 65_536, 65_537, n - 1, n][ch.pick(8)].min(n);
        su.downloaded = at;
        session(&su, &URLS[0], [0x11; 20], None, &[at, at, at], false)
    });
    let lens: [(u64, u64); 8] = [(100, 250), (100, 300), (100, 1), (100, 100), (1 << 40, 5 << 40), (1 << 40, (4 << 40) + 1), (1, 3), (1 << 62, (1 << 62) + 5)];
    ctx.explore("left", opts().fresh(false), move |ch| {
        let u = &URLS[0];
        let mut su = Setup::new(u.url);
        (su.piece_length, su.length) = lens[ch.pick(lens.len())];
        su.multi = ch.pick(2) == 1;
        let n = su.pieces() + 1;
        // never decreasing number of pieces
        let mut at = ch.pick(n as usize) as u64;
        su.downloaded = at;
        let mut steps = vec![];
        for _ in 0..2 {
            at += ch.pick((n - at) as usize) as u64;
            steps.push(at);
        }
        steps.push(at);
        session(&su, u, [0x11; 20], None, &steps, at == su.pieces() && steps[0] == at)
    });
}

// ------------------------------------------------------------------ C26
enum Verdict {
    /// peers and interval, tracker id
    Accept(BTreeSet<A>, u64, Option<Vec<u8>>),
    Reject,
    /// unspecified: whatever was listed may be taken
    Either(BTreeSet<A>, Option<u64>, Option<Vec<u8>>),
}
fn reference(b: &[u8]) -> Verdict {
    let none = || Verdict::Either(BTreeSet::new(), None, None);
    let p = match bencode::parse(b) {
        Ok(p) => p,
        Err(bencode::Bad::Malformed(_)) => {
            // a reader that looks no further than it must may not notice damage behind the known keys;
            // the damage is always inside the dictionary, so this is a bad reply
            return Verdict::Reject;
        }
        Err(bencode::Bad::Unsure) => return none(),
    };
    let Some(d) = p.value.as_dict() else { return Verdict::Reject };
    let u = |v: &V| v.as_int().and_then(|i| u64::try_from(i).ok());
    let mut unsure = p.trailing > 0 || p.unsorted || p.deep;
    if d.contains_key(&b"failure reason"[..]) {
        return Verdict::Reject;
    }
    let Some(iv) = d.get(&b"interval"[..]) else { return Verdict::Reject };
    let Some(iv) = u(iv) else { return Verdict::Reject };
    let Some(pv) = d.get(&b"peers"[..]) else { return Verdict::Reject };
    let Some(ps) = pv.as_bytes() else { return Verdict::Reject };
    let list: BTreeSet<A> = ps.chunks_exact(6).map(|x| SocketAddrV4::new(Ipv4Addr::new(x[0], x[1], x[2], x[3]), u16::from_be_bytes([x[4], x[5]]))).collect();
    if ps.len() % 6 != 0 || iv > 1 << 40 {
        unsure = true;
    }
    // ill-typed optional fields
    for f in ["complete", "incomplete", "min interval"] {
        if let Some(v) = d.get(f.as_bytes()) {
            if u(v).is_none() {
                unsure = true;
            }
        }
    }
    let mut tid = None;
    if let Some(t) = d.get(&b"tracker id"[..]) {
        match t.as_bytes() {
            Some(t) if std::str::from_utf8(t).is_ok() => tid = Some(t.to_vec()),
            _ => unsure = true,
        }
    }
    if let Some(t) = d.get(&b"warning message"[..]) {
        if t.as_bytes().map_or(true, |t| std::str::from_utf8(t).is_err()) {
            unsure = true;
        }
    }
    if unsure {
        return Verdict::Either(list, Some(iv), tid);
    }
    Verdict::Accept(list, iv, tid)
}
fn show(b: &[u8]) -> String {
    let t: String = b.iter().flat_map(|b| std::ascii::escape_default(*b)).map(|c| c as char).collect();
    t.chars().take(300).collect()
}

enum How {
    Plain,
    Chunked,
    Status(&'static str),
    /// promises more bytes than it sends
    Short,
    /// closes after this many bytes of the whole response
    Cut(usize),
    Raw(&'static [u8]),
}
/// Replies given one after another to the same client.
fn replies(rs: Vec<(Vec<u8>, How)>) -> R {
    rt::run(rt::RtOpts::default(), async move {
        let su = Setup::new(URLS[0].url);
        let t = Tracker::new(tracker_addr(1)).await;
        let c = Client::start(&su, None);
        let mut tids: Vec<Option<Vec<u8>>> = vec![None];
        let mut acc = 0u64;
        let mut started = false;
        let mut next = t.next(Duration::from_secs(5)).await?;
        for (body, how) in rs {
            let (mut conn, r) = next.ok_or(Fail { key: "no-announce".into(), msg: "the tracker is not asked".into() })?;
            let a = read(&r, "")?;
            check(&a, &su, c.info_hash.as_byte_ref().try_into().unwrap(), &[250], if started { &[None, Some("started")] } else { &[Some("started")] }, &tids)?;
            let before = c.pool();
            let mut v = reference(&body);
            match how {
                How::Plain => answer(&mut conn, "200 OK", &body).await,
                How::Chunked => answer_chunked(&mut conn, &body).await,
                How::Status(st) => {
                    answer(&mut conn, st, &body).await;
                    v = match v {
                        Verdict::Accept(p, i, t) if st.starts_with('2') => Verdict::Either(p, Some(i), t),
                        _ => Verdict::Reject,
                    };
                }
                How::Short => {
                    let m = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", body.len() + 1);
                    let _ = conn.write_all(m.as_bytes()).await;
                    let _ = conn.write_all(&body).await;
                    let _ = conn.shutdown().await;
                    v = Verdict::Reject;
                }
                How::Cut(n) => {
                    let mut m = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes();
                    m.extend_from_slice(&body);
                    let n = n.min(m.len());
                    if n < m.len() {
                        v = Verdict::Reject;
                    }
                    let _ = conn.write_all(&m[..n]).await;
                    let _ = conn.shutdown().await;
                }
                How::Raw(x) => {
                    let _ = conn.write_all(x).await;
                    let _ = conn.shutdown().await;
                    v = Verdict::Reject;
                }
            }
            drop(conn);
            rt::settle().await;
            mc::no_panic()?;
            let at = Instant::now();
            let gained: BTreeSet<A> = c.pool().difference(&before).cloned().collect();
            ensure!(before.is_subset(&c.pool()), "a tracker reply removed peers", "{}", show(&body));
            // when it asks again
            let long = Duration::from_secs(2_000_000);
            next = t.next(long).await?;
            let wait = next.as_ref().map(|(_, r)| r.at - at);
            let near = |w: Option<Duration>, s: u64| w.is_some_and(|w| w + secs(1, 0) >= secs(s, 0) && w <= secs(s + 1, 0));
            let timed = |iv: u64| if iv >= 1_900_000 { next.is_none() || near(wait, iv) } else if iv >= 60 { near(wait, iv) } else { wait.is_some_and(|w| w >= Duration::from_millis(900) && w <= secs(130, 0)) };
            let mut over = false;
            match v {
                Verdict::Accept(p, iv, tid) => {
                    let want: BTreeSet<A> = p.difference(&before).cloned().collect();
                    ensure_eq!(gained, want, "wrong peers learnt from a tracker reply", "{}", show(&body));
                    ensure!(timed(iv), "reply's interval not kept", "next announce after {wait:?}, interval {iv}: {}", show(&body));
                    if tid.is_some() {
                        tids.retain(|t| t.is_some());
                        tids.push(tid);
                    }
                    over = iv >= 1_900_000;
                    started = true;
                    acc = h((acc, "accept", gained.len()));
                }
                Verdict::Reject => {
                    ensure!(gained.is_empty(), "peers invented from a bad tracker reply", "{gained:?} from {}", show(&body));
                    ensure!(near(wait, RETRY), "tracker not asked again after the retry delay", "next announce after {wait:?} for {}", show(&body));
                    acc = h((acc, "reject"));
                }
                Verdict::Either(p, iv, tid) => {
                    let want: BTreeSet<A> = p.difference(&before).cloned().collect();
                    ensure!(gained.is_empty() || gained == want, "wrong peers learnt from a tracker reply", "{gained:?} from {}", show(&body));
                    ensure!(near(wait, RETRY) || iv.is_some_and(|iv| timed(iv)), "tracker not asked again", "next announce after {wait:?} for {}", show(&body));
                    if tid.is_some() {
                        tids.push(tid);
                    }
                    started = true;
                    over = next.is_none();
                    acc = h((acc, "either", gained.len()));
                }
            }
            if over {
                // the session waits for a very long time: the rest needs another one
                return Ok(acc);
            }
        }
        Ok(acc)
    })
}
fn bases() -> Vec<Vec<u8>> {
    let d = |v: Vec<(&str, V)>| bencode::encode(&dict(v.into_iter().map(|(a, b)| (k(a), b)).collect()));
    let ps = bytes(&peer_bytes(&[peer(1), peer(2)]));
    vec![
        d(vec![("interval", int(1800)), ("peers", ps.clone()), ("complete", int(5)), ("incomplete", int(1)), ("min interval", int(900))]),
        d(vec![("interval", int(120)), ("peers", ps.clone()), ("tracker id", s("tid")), ("warning message", s("w")), ("x", list(vec![int(1), dict(vec![(k("y"), s("z"))])]))]),
        d(vec![("interval", int(90)), ("peers", bytes(&[]))]),
        d(vec![("failure reason", s("no such torrent"))]),
        d(vec![("failure reason", s("")), ("interval", int(300)), ("peers", ps)]),
    ]
}
fn c26(ctx: &mut Ctx) {
    ctx.assume("compact IPv4 peer lists (the client asks for compact=1); a dictionary list counts as a reply it cannot use");
    // the field domains, combined
    let ints: Vec<Option<V>> = vec![Some(int(1800)), Some(int(60)), Some(int(0)), Some(int(1)), Some(int(u32::MAX as i128)), Some(int(u64::MAX as i128)), Some(int(-1)), Some(int(1i128 << 64)), Some(s("1800")), Some(list(vec![int(60)])), None];
    let plists: Vec<Option<V>> = vec![
        Some(bytes(&peer_bytes(&[peer(1), peer(2), peer(3)]))),
        Some(bytes(&[])),
        Some(bytes(&peer_bytes(&[peer(4), peer(4)]))),
        Some(bytes(&peer_bytes(&[peer(5)])[..5])),
        Some(bytes(&[peer_bytes(&[peer(5)]), vec![1]].concat())),
        Some(bytes(&[0; 6])),
        Some(bytes(&[255; 12])),
        Some(list(vec![])),
        Some(list(vec![dict(vec![(k("ip"), s("10.9.1.1")), (k("peer id"), bytes(&[1; 20])), (k("port"), int(80))])])),
        Some(int(6)),
        Some(bytes(&peer_bytes(&(0..200).map(peer).collect::<Vec<_>>()))),
        None,
    ];
    let opt: Vec<Vec<(&str, V)>> = vec![
        vec![],
        vec![("complete", int(1)), ("incomplete", int(2))],
        vec![("complete", int(u64::MAX as i128))],
        vec![("complete", int(-1))],
        vec![("incomplete", s("x"))],
        vec![("min interval", int(10))],
        vec![("min interval", list(vec![]))],
        vec![("tracker id", s("a&b"))],
        vec![("tracker id", bytes(&[0xff, 0xfe]))],
        vec![("tracker id", int(4))],
        vec![("warning message", s("careful"))],
        vec![("warning message", int(1))],
        vec![("failure reason", s("go away"))],
        vec![("failure reason", int(4))],
        vec![("peers6", bytes(&[1; 18])), ("external ip", bytes(&[1, 2, 3, 4]))],
        vec![("a", dict(vec![(k("peers"), bytes(&[1; 6]))])), ("zz", list(vec![list(vec![]), dict(vec![])]))],
    ];
    let (ni, np, no) = (ints.len(), plists.len(), opt.len());
    ctx.explore("fields", opts().fresh(false), move |ch| {
        let (i, p, o) = (ch.pick(ni), ch.pick(np), ch.pick(no));
        let mut d: Vec<(Vec<u8>, V)> = opt[o].iter().map(|(a, b)| (k(a), b.clone())).collect();
        if let Some(v) = &ints[i] {
            d.push((k("interval"), v.clone()));
        }
        if let Some(v) = &plists[p] {
            d.push((k("peers"), v.clone()));
        }
        let chunked = (i + p + o) % 2 == 1;
        let good = reply(70, &[peer(77)], None);
        replies(vec![(bencode::encode(&dict(d)), if chunked { How::Chunked } else { How::Plain }), (good, How::Plain)])
    });
    // every number of every size, present or not, leaves the peers alone
    let sizes: [u64; 14] = [0, 1, 127, 128, 255, 256, 32768, 65535, 65536, 1 << 31, u32::MAX as u64, 1 << 32, i64::MAX as u64, u64::MAX];
    let ni = ctx.by(2, 7) as usize;
    ctx.explore("counts", opts().fresh(false), move |ch| {
        let iv = [60u64, 65536, 255, 256, 65535, 70000, 1_000_000][ch.pick(ni)];
        let which = ch.pick(8);
        let n = sizes[ch.pick(sizes.len())];
        let m = sizes[ch.pick(sizes.len())];
        let mut d = vec![(k("interval"), int(iv as i128)), (k("peers"), bytes(&peer_bytes(&[peer(1), peer(2)])))];
        for (i, (f, v)) in [("complete", n), ("incomplete", m), ("min interval", n.min(m))].iter().enumerate() {
            if which >> i & 1 == 1 {
                d.push((k(f), int(*v as i128)));
            }
        }
        replies(vec![(bencode::encode(&dict(d)), How::Plain), (reply(70, &[peer(77)], None), How::Plain)])
    });
    // damage to whole replies
    let bs = bases();
    let mut cases: Vec<Vec<u8>> = vec![];
    for b in &bs {
        for n in 0..=b.len() {
            cases.push(b[..n].to_vec());
        }
        for i in 0..b.len() {
            let subs: Vec<u8> = if ctx.quick() { vec![b[i] ^ 1, b'0', b'9', b':', b'e', b'i', b'l', b'd', b'-', 0, 0xff] } else { (0..=255).collect() };
            for x in subs {
                if x != b[i] {
                    let mut c = b.clone();
                    c[i] = x;
                    cases.push(c);
                }
            }
            // one byte dropped, one byte doubled
            cases.push([&b[..i], &b[i + 1..]].concat());
            cases.push([&b[..=i], &b[i..]].concat());
        }
        for t in [&b"e"[..], b"x", b"i5e", b"\r\n"] {
            cases.push([&b[..], t].concat());
        }
    }
    for t in ["", "d", "de", "i5e", "le", "4:spam", "<html>404</html>", "d8:intervali60e5:peers18446744073709551615:x", "d8:intervali60e5:peersi-0ee", "d8:intervali60e5:peers06:abcdefe"] {
        cases.push(t.as_bytes().to_vec());
    }
    for n in [10usize, 100, 3000, 200_000] {
        cases.push(vec![b'l'; n]);
        cases.push([b"d1:a".repeat(n)].concat());
        cases.push([&b"d1:a"[..], &vec![b'l'; n], &vec![b'e'; n], b"8:intervali60e5:peers0:e"].concat());
    }
    // equal ones once
    let set: BTreeSet<Vec<u8>> = cases.into_iter().collect();
    let cases: Vec<Vec<u8>> = set.into_iter().collect();
    let per = 24;
    let n = cases.len().div_ceil(per);
    ctx.notes.insert("damaged_replies".into(), cases.len().into());
    ctx.explore("damage", opts().fresh(false), move |ch| {
        let c = ch.pick(n);
        let mut rs = vec![];
        for x in cases[c * per..].iter().take(per) {
            ch.note(|| show(x));
            rs.push((x.clone(), How::Plain));
        }
        // a session that ended up waiting for ages is followed by a new one for the rest
        while !rs.is_empty() {
            let cut = rs.iter().position(|(b, _)| matches!(reference(b), Verdict::Accept(_, i, _) | Verdict::Either(_, Some(i), _) if i >= 1_900_000)).map_or(rs.len(), |p| p + 1);
            let rest = rs.split_off(cut);
            replies(rs)?;
            rs = rest;
        }
        Ok(c as u64)
    });
    // HTTP level
    ctx.explore("http", opts().fresh(false), move |ch| {
        let mut rs = vec![];
        for i in 0..2 {
            let body = reply(70 + i, &[peer(1 + i as u8)], None);
            let w = ch.pick(15);
            rs.push(match w {
                0 => (body, How::Plain),
                1 => (body, How::Chunked),
                2 => (body, How::Status("404 Not Found")),
                3 => (body, How::Status("500 Internal Server Error")),
                4 => (b"<html>".to_vec(), How::Status("503 Busy")),
                5 => (body, How::Short),
                6 => (body, How::Raw(b"")),
                7 => (body, How::Raw(b"\x00\xff\r\n\r\n")),
                8 => (body, How::Raw(b"HTTP/1.1 200 OK\r\n")),
                9 => (body, How::Raw(b"HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nd")),
                10 => (vec![], How::Status("204 No Content")),
                11 => (body, How::Status("400 Bad Request")),
                12 => (body, How::Status("599 Whatever")),
                13 => (body, How::Status("203 Non-Authoritative Information")),
                _ => (vec![], How::Plain),
            });
        }
        rs.push((reply(80, &[peer(9)], None), How::Plain));
        replies(rs)
    });
    // replies of any size
    ctx.explore("big", opts().fresh(false), move |ch| {
        let n = [1u32, 200, 683, 2_731, 10_923, 50_000][ch.pick(6)];
        let pad = [0usize, 1_000, 16_384, 70_000, 1_200_000][ch.pick(5)];
        let key = ["aa", "zz"][ch.pick(2)];
        // the chunks are of seven bytes each
        let chunked = pad <= 16_384 && n <= 10_923 && ch.pick(2) == 1;
        ch.note(|| format!("{n} peers, {pad} more bytes in {key}, chunked {chunked}"));
        let v: Vec<A> = (0..n).map(|j| SocketAddrV4::new(Ipv4Addr::from(0x0a09_0000 + j), 6000 + (j % 7) as u16)).collect();
        let mut d = vec![(k("interval"), int(70)), (k("peers"), bytes(&peer_bytes(&v)))];
        if pad > 0 {
            d.push((k(key), bytes(&vec![b'p'; pad])));
        }
        let body = bencode::encode(&dict(d));
        replies(vec![(body, if chunked { How::Chunked } else { How::Plain }), (reply(80, &[peer(9)], None), How::Plain)])
    });
    ctx.explore("cut", opts().fresh(false), move |ch| {
        let body = reply(70, &[peer(1)], Some(b"t"));
        let n = ch.pick(body.len() + 42);
        replies(vec![(body, How::Cut(n)), (reply(80, &[peer(9)], None), How::Plain)])
    });
}

// ------------------------------------------------------------------ C27
#[derive(Clone, Copy, Debug, PartialEq)]
enum Be {
    Ok(u64),
    Garbage,
    Failure,
    Close,
    /// accepts the request and never says anything, or stops in the middle of the head or of the body;
    /// the connection stays open
    Silence,
    Stuck(bool),
    /// a good reply that trickles in so slowly that it is never complete
    Trickle,
    /// answers after this many seconds
    Late(u64),
    /// answers properly, is unreachable for the next attempt
    OkThenDown(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    None,
    Complete,
    Progress,
    DropCompletion,
    Shutdown,
}
const EVENTS: [Ev; 5] = [Ev::None, Ev::Shutdown, Ev::Complete, Ev::Progress, Ev::DropCompletion];

struct M {
    su: Setup,
    started: bool,
    /// completion reported, not announced yet
    completed: bool,
    done: bool,
    shut: bool,
    down: u64,
    nth: u8,
}
fn happen(e: Ev, c: &mut Client, m: &mut M) {
    match e {
        Ev::None => (),
        Ev::Complete => {
            // a download completes once
            if let (Some(tx), false) = (&c.completed, m.done) {
                m.done = true;
                m.down = m.su.pieces();
                c.downloaded.store(m.down, Ordering::Relaxed);
                let _ = tx.send(());
                m.completed = true;
            }
        }
        Ev::Progress => {
            m.down = (m.down + 1).min(m.su.pieces());
            c.downloaded.store(m.down, Ordering::Relaxed);
        }
        Ev::DropCompletion => c.completed = None,
        Ev::Shutdown => {
            c.stop();
            m.shut = true;
        }
    }
}
async fn sleep(s: u64) {
    tokio::time::sleep(Duration::from_secs(s)).await;
}

/// One tracker: `depth` announces, each with a behaviour, an event while the announce is in flight and
/// an event while the client waits for the next announce.
fn c27_case(ch: &Ch, depth: usize, sched: bool) -> R {
    let ch = ch.clone();
    rt::run(rt::RtOpts { sched, select: sched, ..Default::default() }, async move {
        let mut m = M { su: Setup::new(URLS[0].url), started: false, completed: false, done: false, shut: false, down: 0, nth: 0 };
        let su = m.su.clone();
        let mut t = Tracker::new(tracker_addr(1)).await;
        let mut c = Client::start(&su, None);
        let ih: B = c.info_hash.as_byte_ref().try_into().unwrap();
        let mut event: Option<&str> = Some("started");
        let mut due = Instant::now();
        let mut lefts = vec![su.left(0)];
        let mut pool = BTreeSet::new();
        let mut kept = vec![];
        let mut acc = 0u64;
        let fail = |k: &str, m: String| -> Result<(), Fail> { mc::fail(k, m) };
        let mut i = 0;
        while i < depth && !m.shut {
            i += 1;
            let Some((mut conn, r)) = t.next(due - Instant::now() + Duration::from_secs(300)).await? else {
                return mc::fail("tracker not announced to", format!("announce {i} missing"));
            };
            if !(r.at + secs(1, 0) >= due && r.at <= due + secs(1, 0)) {
                fail("announce at the wrong time", format!("announce {i} ({event:?}) {:?} after its time / {:?} before", r.at.checked_duration_since(due), due.checked_duration_since(r.at)))?;
            }
            let a = read(&r, "")?;
            ch.note(|| format!("announce {i}: {:?} left {}", a.event, a.left));
            check(&a, &su, &ih, &lefts, &[event], &[None])?;
            let was = event;
            // while the announce is in flight
            let e = EVENTS[ch.deviate(EVENTS.len())];
            let bes = [Be::Ok(1000), Be::Garbage, Be::Failure, Be::Close, Be::Silence, Be::Stuck(false), Be::Stuck(true), Be::Trickle, Be::Ok(90), Be::Late(100), Be::OkThenDown(1000), Be::Ok(0)];
            let be = bes[ch.pick(bes.len())];
            ch.note(|| format!("  in flight: {e:?}, tracker: {be:?}"));
            if e != Ev::None {
                happen(e, &mut c, &mut m);
                tokio::time::sleep(Duration::from_millis(10)).await;
                if m.shut {
                    // the announce under way is abandoned or finished, then the session is stopped
                    drop(conn);
                    break;
                }
            }
            let now = Instant::now();
            m.nth += 1;
            let p = peer(m.nth);
            let mut ok = None;
            match be {
                Be::Ok(iv) | Be::OkThenDown(iv) => {
                    answer(&mut conn, "200 OK", &reply(iv, &[p], None)).await;
                    ok = Some(iv);
                }
                Be::Late(s) => {
                    sleep(s).await;
                    answer(&mut conn, "200 OK", &reply(700, &[p], None)).await;
                    ok = Some(700);
                }
                Be::Garbage => answer(&mut conn, "200 OK", b"d8:intervali5e5:peers6:abcdef").await,
                Be::Failure => answer(&mut conn, "200 OK", b"d14:failure reason2:noe").await,
                Be::Close => drop(conn.shutdown().await),
                Be::Silence => sleep(TIMEOUT).await,
                Be::Stuck(body) => {
                    let head: &[u8] = if body { b"HTTP/1.1 200 OK\r\ncontent-length: 40\r\n\r\nd8:interval" } else { b"HTTP/1.1 200 OK\r\ncont" };
                    let _ = conn.write_all(head).await;
                    sleep(TIMEOUT).await;
                }
                Be::Trickle => {
                    let r = reply(1000, &[p], None);
                    let _ = conn.write_all(format!("HTTP/1.1 200 OK\r\ncontent-length: {}\r\n\r\n", r.len()).as_bytes()).await;
                    for b in &r[..8] {
                        sleep(TIMEOUT / 8).await;
                        let _ = conn.write_all(&[*b]).await;
                    }
                }
            }
            rt::settle().await;
            if matches!(be, Be::Silence | Be::Stuck(_) | Be::Trickle) {
                kept.push(conn);
            } else {
                drop(conn);
            }
            let answered = Instant::now();
            let _ = now;
            if let Some(iv) = ok {
                m.started = true;
                pool.insert(p);
                ensure_eq!(c.pool(), pool, "peers of a successful reply are not in the pool", "pool");
                event = None;
                lefts = vec![su.left(m.down)];
                due = answered + Duration::from_secs(iv);
                let mut fixed = false;
                if iv < 60 {
                    // any pause is fine, no busy loop
                    let Some((conn, r)) = t.next(secs(130, 0)).await? else { return mc::fail("tracker not announced to", format!("announce {} missing", i + 1)) };
                    ensure!(m.completed || r.at - answered >= Duration::from_millis(900), "announces in a busy loop", "interval {iv}, asked again after {:?}", r.at - answered);
                    let a = read(&r, "")?;
                    let ev = if m.completed { Some("completed") } else { None };
                    check(&a, &su, &ih, &lefts, &[ev], &[None])?;
                    m.completed = false;
                    let mut conn = conn;
                    answer(&mut conn, "200 OK", &reply(1000, &[p], None)).await;
                    rt::settle().await;
                    due = Instant::now() + secs(1000, 0);
                    fixed = true;
                }
                if m.completed {
                    event = Some("completed");
                    m.completed = false;
                    due = Instant::now();
                    // announced at once: no event can come in between
                    continue;
                }
                if be == Be::OkThenDown(1000) {
                    // the next attempt fails, the one after the retry delay works
                    t.down();
                    tokio::time::sleep_until(due + secs(RETRY / 2, 0)).await;
                    t.up().await;
                    due += secs(RETRY, 0);
                }
                let _ = fixed;
            } else {
                ensure_eq!(c.pool(), pool, "peers invented from a bad tracker reply", "pool");
                event = was;
                due = answered + Duration::from_secs(RETRY);
            }
            // while it waits
            let w = EVENTS[ch.deviate(EVENTS.len())];
            if w != Ev::None {
                ch.note(|| format!("  waiting: {w:?}"));
                let half = (due - Instant::now()) / 2;
                tokio::time::sleep(half).await;
                happen(w, &mut c, &mut m);
                match w {
                    Ev::Complete if m.completed && ok.is_some() && be != Be::OkThenDown(1000) => {
                        event = Some("completed");
                        m.completed = false;
                        due = Instant::now();
                        lefts = vec![su.left(m.down)];
                    }
                    Ev::Progress | Ev::Complete => {
                        if ok.is_some() && be != Be::OkThenDown(1000) {
                            lefts = vec![su.left(m.down)];
                        } else {
                            lefts.push(su.left(m.down));
                        }
                    }
                    _ => (),
                }
            }
            if e == Ev::Progress || e == Ev::Complete {
                lefts.push(su.left(m.down));
            }
            acc = h((acc, format!("{be:?}{e:?}{w:?}")));
        }
        if !m.shut {
            // pending announce, then shutdown in the middle of the wait
            let Some((mut conn, r)) = t.next(due - Instant::now() + Duration::from_secs(300)).await? else {
                return mc::fail("tracker not announced to", "last announce missing");
            };
            ensure!(r.at + secs(1, 0) >= due && r.at <= due + secs(1, 0), "announce at the wrong time", "last announce");
            check(&read(&r, "")?, &su, &ih, &lefts, &[event], &[None])?;
            answer(&mut conn, "200 OK", &reply(500, &[], None)).await;
            rt::settle().await;
            m.started = true;
            if m.completed {
                let Some((mut conn, r)) = t.next(secs(5, 0)).await? else {
                    return mc::fail("tracker not announced to", "completion is not announced");
                };
                check(&read(&r, "")?, &su, &ih, &[su.left(m.down)], &[Some("completed")], &[None])?;
                answer(&mut conn, "200 OK", &reply(500, &[], None)).await;
                rt::settle().await;
            }
            c.stop();
        }
        // the session is stopped at once, exactly once if it was ever started
        let at = Instant::now();
        let mut stopped = 0;
        while let Some((mut conn, r)) = t.next(secs(3000, 0)).await? {
            let a = read(&r, "")?;
            check(&a, &su, &ih, &[su.left(m.down)], &[Some("stopped")], &[None])?;
            ensure!(r.at <= at + secs(1, 0), "stopped is announced late", "{:?} after the shutdown", r.at - at);
            stopped += 1;
            match ch.pick(3) {
                0 => answer(&mut conn, "200 OK", &reply(500, &[], None)).await,
                1 => drop(conn),
                _ => {
                    sleep(TIMEOUT + 2).await;
                    kept.push(conn);
                }
            }
        }
        ensure!(stopped <= 1, "stopped announced more than once", "{stopped} times");
        ensure!(stopped == 1 || !m.started, "a started session is not stopped on shutdown", "no announce with event stopped");
        let w = c.waiter.take().expect("shut down");
        ensure!(rt::within(secs(10, 0), w.wait()).await.is_some(), "the tracker task outlives the shutdown", "");
        Ok(h((acc, stopped, m.down)))
    })
}
/// Two trackers of one torrent, in the same tier or in different ones: neither disturbs the other.
fn c27_two(ch: &Ch, depth: usize) -> R {
    let ch = ch.clone();
    rt::run(rt::RtOpts::default(), async move {
        let mut su = Setup::new("");
        let (u1, u2) = ("http://10.0.1.1:6969/announce".to_string(), "http://10.0.1.2:6969/announce".to_string());
        su.urls = match ch.pick(3) {
            0 => vec![vec![u1, u2]],
            1 => vec![vec![u1.clone()], vec!["udp://10.0.1.3:80".into()], vec![u2, u1]],
            _ => vec![vec!["wss://x/y".into(), u2], vec![u1]],
        };
        let ts = [Tracker::new(tracker_addr(1)).await, Tracker::new(tracker_addr(2)).await];
        let mut c = Client::start(&su, None);
        let ih: B = c.info_hash.as_byte_ref().try_into().unwrap();
        // script of each tracker: interval or failure
        let scripts: Vec<Vec<Option<u64>>> = (0..2).map(|_| (0..depth).map(|_| [Some(100), None, Some(230)][ch.pick(3)]).collect()).collect();
        let start = Instant::now();
        let mut due = [start, start];
        let mut at = [0usize, 0];
        let mut ev: [Option<&str>; 2] = [Some("started"), Some("started")];
        let mut pool = BTreeSet::new();
        let mut started = [false, false];
        while at[0] < depth || at[1] < depth {
            // whoever is due first
            let i = if at[0] >= depth { 1 } else if at[1] >= depth { 0 } else if due[0] <= due[1] { 0 } else { 1 };
            let Some((mut conn, r)) = ts[i].next(due[i].saturating_duration_since(Instant::now()) + secs(5, 0)).await? else {
                return mc::fail("tracker not announced to", format!("tracker {i}, announce {}", at[i] + 1));
            };
            let _ = r.at;
            check(&read(&r, "")?, &su, &ih, &[250], &[ev[i]], &[None])?;
            let now = Instant::now();
            ensure!(now <= due[i] + secs(8, 0) && now + secs(1, 0) >= due[i], "announce at the wrong time", "tracker {i}");
            match scripts[i][at[i]] {
                Some(iv) => {
                    let p = peer((i * 50 + at[i]) as u8);
                    answer(&mut conn, "200 OK", &reply(iv, &[p], None)).await;
                    pool.insert(p);
                    ev[i] = None;
                    started[i] = true;
                    due[i] = now + secs(iv, 0);
                }
                None => {
                    answer(&mut conn, "200 OK", b"").await;
                    due[i] = now + secs(RETRY, 0);
                }
            }
            at[i] += 1;
            rt::settle().await;
            ensure_eq!(c.pool(), pool, "peers of a successful reply are not in the pool", "pool");
        }
        c.stop();
        for i in 0..2 {
            let mut n = 0;
            while let Some((mut conn, r)) = ts[i].next(secs(2, 0)).await? {
                let a = read(&r, "")?;
                // an announce may have been waiting for this tracker already
                if a.event.as_deref() == Some("stopped") {
                    n += 1;
                }
                answer(&mut conn, "200 OK", &reply(500, &[], None)).await;
            }
            ensure!(n == 1 || (n == 0 && !started[i]), "a started session is not stopped exactly once on shutdown", "tracker {i}: {n} times");
        }
        Ok(h((at, started, pool.len())))
    })
}
/// Several announce URLs on one host: each is a tracker of its own.
fn c27_same_host(ch: &Ch, depth: usize) -> R {
    let ch = ch.clone();
    rt::run(rt::RtOpts::default(), async move {
        let all = [("/announce", ""), ("/other/announce", ""), ("/announce", "passkey=1"), ("/announce", "passkey=2")];
        let (x, y) = [(0, 1), (1, 0), (0, 2), (2, 3), (3, 2)][ch.pick(5)];
        let urls = [all[x], all[y]];
        let text = urls.map(|(p, q)| format!("http://10.0.1.1:6969{p}{}{q}", if q.is_empty() { "" } else { "?" }));
        let mut su = Setup::new("");
        su.urls = if ch.pick(2) == 0 { vec![text.to_vec()] } else { text.iter().map(|u| vec![u.clone()]).collect() };
        let t = Tracker::new(tracker_addr(1)).await;
        let mut c = Client::start(&su, None);
        let ih: B = c.info_hash.as_byte_ref().try_into().unwrap();
        let scripts: Vec<Vec<Option<u64>>> = (0..2).map(|_| (0..depth).map(|_| [Some(100), None, Some(230)][ch.pick(3)]).collect()).collect();
        let start = Instant::now();
        let mut due = [start, start];
        let mut at = [0usize, 0];
        let mut ev: [Option<&str>; 2] = [Some("started"), Some("started")];
        let mut pool = BTreeSet::new();
        while at[0] < depth || at[1] < depth {
            let first = *due.iter().min().unwrap();
            let Some((mut conn, r)) = t.next(first.saturating_duration_since(Instant::now()) + secs(5, 0)).await? else {
                return mc::fail("tracker not announced to", format!("one of {text:?}, due after {:?}", first - start));
            };
            // the passkey tells them apart
            let Some(i) = (0..2).find(|i| r.path == urls[*i].0 && (r.query.contains(urls[*i].1) && !urls[*i].1.is_empty() || urls[*i].1.is_empty() && !r.query.contains("passkey"))) else {
                return mc::fail("announced to another path", r.target);
            };
            check(&read(&r, urls[i].1)?, &su, &ih, &[250], &[ev[i]], &[None])?;
            let now = Instant::now();
            ensure!(now <= due[i] + secs(2, 0) && now + secs(1, 0) >= due[i], "announce at the wrong time", "tracker {i}");
            match scripts[i].get(at[i]).copied().unwrap_or(Some(5000)) {
                Some(iv) => {
                    let p = peer((i * 50 + at[i]) as u8);
                    answer(&mut conn, "200 OK", &reply(iv, &[p], None)).await;
                    pool.insert(p);
                    ev[i] = None;
                    due[i] = now + secs(iv, 0);
                }
                None => {
                    answer(&mut conn, "200 OK", b"").await;
                    due[i] = now + secs(RETRY, 0);
                }
            }
            at[i] += 1;
            rt::settle().await;
            ensure_eq!(c.pool(), pool, "peers of a successful reply are not in the pool", "pool");
        }
        c.stop();
        let mut n = 0;
        while let Some((mut conn, r)) = t.next(secs(2, 0)).await? {
            n += r.query.contains("event=stopped") as usize;
            answer(&mut conn, "200 OK", &reply(500, &[], None)).await;
        }
        ensure_eq!(n, ev.iter().filter(|e| e.is_none()).count(), "a started session is not stopped exactly once on shutdown", "stopped");
        Ok(h((at, pool.len())))
    })
}
/// Replies with any number of peers, known ones among them, one after the other.
fn c27_sizes(ch: &Ch) -> R {
    let sizes: Vec<usize> = (0..3).map(|_| [0, 1, 50, 199, 201, 1000, 3000][ch.pick(7)]).collect();
    let (known, finish) = (ch.pick(2) == 1, ch.pick(2) == 1);
    ch.note(|| format!("peers per reply: {sizes:?}, the earlier ones again: {known}, complete after the first: {finish}"));
    rt::run(rt::RtOpts::default(), async move {
        let su = Setup::new(URLS[0].url);
        let t = Tracker::new(tracker_addr(1)).await;
        let mut c = Client::start(&su, None);
        let mut pool = BTreeSet::new();
        let mut next = 0u32;
        for (i, n) in sizes.iter().enumerate() {
            let Some((mut conn, r)) = t.next(secs(700, 0)).await? else { return mc::fail("tracker not announced to", format!("announce {i} missing")) };
            let a = read(&r, "")?;
            check(&a, &su, c.info_hash.as_byte_ref().try_into().unwrap(), &[su.left(if i > 0 && finish { 3 } else { 0 })], &[if i == 0 { Some("started") } else if i == 1 && finish { Some("completed") } else { None }], &[None])?;
            if known {
                next = next.saturating_sub(100);
            }
            let v: Vec<A> = (0..*n as u32).map(|j| SocketAddrV4::new(Ipv4Addr::from(0x0a09_0000 + next + j), 6000 + (j % 7) as u16)).collect();
            next += *n as u32;
            answer(&mut conn, "200 OK", &reply(600, &v, None)).await;
            pool.extend(v);
            rt::settle().await;
            rt::settle().await;
            let got = c.pool();
            ensure!(got == pool, "peers of a successful reply are not in the pool", "after reply {i} with {n} peers: {} in the pool, {} of them in no reply, {} missing", got.len(), got.difference(&pool).count(), pool.difference(&got).count());
            if i == 0 && finish {
                c.downloaded.store(3, Ordering::Relaxed);
                let _ = c.completed.as_ref().unwrap().send(());
            }
        }
        c.stop();
        Ok(h((sizes, known, finish)))
    })
}
/// Any interval, any number of times.
fn c27_intervals(ch: &Ch) -> R {
    let iv = [60u64, 255, 256, 3_600, 7_200, 32_768, 65_536, 65_596, 86_400, 90_000, 131_172, 7 * 86_400, 30 * 86_400][ch.pick(13)];
    let n = [2usize, 10, 70][ch.pick(3)];
    ch.note(|| format!("{n} times every {iv} s"));
    rt::run(rt::RtOpts::default(), async move {
        let su = Setup::new(URLS[0].url);
        let t = Tracker::new(tracker_addr(1)).await;
        let mut c = Client::start(&su, None);
        let mut last: Option<Instant> = None;
        for i in 0..n {
            let Some((mut conn, r)) = t.next(secs(iv + 300, 0)).await? else { return mc::fail("tracker not announced to", format!("announce {i} missing")) };
            if let Some(l) = last {
                let d = r.at - l;
                ensure!(d + secs(1, 0) >= secs(iv, 0) && d <= secs(iv + 1, 0), "announce at the wrong time", "announce {i} {d:?} after the last reply");
            }
            check(&read(&r, "")?, &su, c.info_hash.as_byte_ref().try_into().unwrap(), &[su.left(0)], &[if i == 0 { Some("started") } else { None }], &[None])?;
            answer(&mut conn, "200 OK", &reply(iv, &[], None)).await;
            rt::settle().await;
            last = Some(Instant::now());
        }
        c.stop();
        let Some((mut conn, r)) = t.next(secs(5, 0)).await? else { return mc::fail("a started session is not stopped on shutdown", "no announce with event stopped") };
        check(&read(&r, "")?, &su, c.info_hash.as_byte_ref().try_into().unwrap(), &[su.left(0)], &[Some("stopped")], &[None])?;
        answer(&mut conn, "200 OK", &reply(100, &[], None)).await;
        Ok(h((iv, n)))
    })
}
/// A tracker that fails many times in a row: it is tried again at the same pace with the same announce,
/// and the session goes on once it recovers.
fn c27_outage(ch: &Ch) -> R {
    let n = [5usize, 11, 30, 150][ch.pick(4)];
    let kind = ch.pick(5);
    // before the first reply, between two, or when the completion is due
    let phase = ch.pick(3);
    ch.note(|| format!("{n} failures of kind {kind} in phase {phase}"));
    rt::run(rt::RtOpts::default(), async move {
        let su = Setup::new(URLS[0].url);
        let t = Tracker::new(tracker_addr(1)).await;
        let mut c = Client::start(&su, None);
        let ih: B = c.info_hash.as_byte_ref().try_into().unwrap();
        let mut event = Some("started");
        let mut left = su.left(0);
        if phase > 0 {
            let Some((mut conn, _)) = t.next(secs(5, 0)).await? else { return mc::fail("tracker not announced to", "first announce") };
            answer(&mut conn, "200 OK", &reply(600, &[], None)).await;
            rt::settle().await;
            event = None;
            if phase == 2 {
                c.downloaded.store(su.pieces(), Ordering::Relaxed);
                let _ = c.completed.as_ref().unwrap().send(());
                event = Some("completed");
                left = su.left(su.pieces());
            }
        }
        let mut due: Option<Instant> = None;
        for i in 0..=n {
            let Some((mut conn, r)) = t.next(secs(900, 0)).await? else { return mc::fail("tracker not announced to", format!("attempt {i} missing")) };
            if let Some(d) = due {
                ensure!(r.at + secs(1, 0) >= d && r.at <= d + secs(1, 0), "announce at the wrong time", "attempt {i}: {:?} after its time / {:?} before", r.at.checked_duration_since(d), d.checked_duration_since(r.at));
            }
            check(&read(&r, "")?, &su, &ih, &[left], &[event], &[None])?;
            if i == n {
                answer(&mut conn, "200 OK", &reply(500, &[peer(1)], None)).await;
            } else {
                match kind {
                    0 => answer(&mut conn, "200 OK", b"d14:failure reason2:noe").await,
                    1 => answer(&mut conn, "200 OK", b"<html>").await,
                    2 => answer(&mut conn, "503 Service Unavailable", &reply(500, &[], None)).await,
                    3 => drop(conn.shutdown().await),
                    _ => sleep(TIMEOUT).await,
                }
            }
            due = Some(Instant::now() + secs(RETRY, 0));
            rt::settle().await;
        }
        ensure_eq!(c.pool(), BTreeSet::from([peer(1)]), "peers of a successful reply are not in the pool", "pool");
        let ok = Instant::now();
        let Some((mut conn, r)) = t.next(secs(900, 0)).await? else { return mc::fail("tracker not announced to", "announce after the outage") };
        let d = r.at - ok;
        ensure!(d + secs(1, 0) >= secs(500, 0) && d <= secs(501, 0), "announce at the wrong time", "{d:?} after the reply");
        check(&read(&r, "")?, &su, &ih, &[left], &[None], &[None])?;
        answer(&mut conn, "200 OK", &reply(500, &[], None)).await;
        rt::settle().await;
        c.stop();
        let Some((mut conn, r)) = t.next(secs(5, 0)).await? else { return mc::fail("a started session is not stopped on shutdown", "no announce with event stopped") };
        check(&read(&r, "")?, &su, &ih, &[left], &[Some("stopped")], &[None])?;
        answer(&mut conn, "200 OK", &reply(100, &[], None)).await;
        Ok(h((n, kind, phase)))
    })
}
fn c27(ctx: &mut Ctx) {
    ctx.assume("the delays of the shipped client: 64 s between retries, 128 s request timeout");
    let d = ctx.by(2, 3);
    ctx.explore("session", opts().dev(2).fresh(false), move |ch| c27_case(ch, d, false));
    if !ctx.quick() {
        ctx.explore("session-long", opts().fresh(false), move |ch| c27_case(ch, 4, false));
    }
    ctx.explore("session-schedules", opts().dev(ctx.by(1, 2)).fresh(false), move |ch| c27_case(ch, 1, true));
    // what is left of large torrents, as pieces come in
    ctx.explore("left", opts().fresh(false), move |ch| {
        let pl = [1u64, 16_384, 1 << 20, 1 << 31, (1 << 32) - 1, 1 << 32, 5 << 32][ch.pick(7)];
        let n = [1u64, 3, 300, 5_000, 70_000][ch.pick(5)];
        let cut = [0, 1, pl / 2, pl - 1][ch.pick(4)].min(pl - 1);
        let mut su = Setup::new(URLS[0].url);
        su.piece_length = pl;
        su.length = pl * n - cut;
        let mut v: Vec<u64> = [0, 1, n / 2, n - 1, n, ((1 << 31) / pl).min(n), ((1 << 32) / pl).min(n), ((1 << 32) / pl + 1).min(n), 255.min(n), 65_536.min(n), 65_537.min(n)].into();
        v.sort();
        v.dedup();
        let late = ch.pick(2) == 1;
        if late {
            v.remove(0);
        }
        su.downloaded = v[0];
        ch.note(|| format!("{n} pieces of {pl}, the last one {cut} shorter; stored: {v:?}"));
        rt::run(rt::RtOpts::default(), async move {
            let mut t = Tracker::new(tracker_addr(1)).await;
            let mut c = Client::start(&su, None);
            let ih: B = c.info_hash.as_byte_ref().try_into().unwrap();
            for (i, d) in v.iter().enumerate() {
                c.downloaded.store(*d, Ordering::Relaxed);
                if i == 0 {
                    rt::settle().await;
                }
                let Some((mut conn, r)) = t.next(secs(200, 0)).await? else { return mc::fail("tracker not announced to", format!("announce {i} missing")) };
                let a = read(&r, "")?;
                check(&a, &su, &ih, &[su.left(*d)], &[if i == 0 { Some("started") } else { None }], &[None])?;
                answer(&mut conn, "200 OK", &reply(100, &[], None)).await;
                rt::settle().await;
            }
            c.stop();
            let Some((mut conn, r)) = t.next(secs(5, 0)).await? else { return mc::fail("a started session is not stopped on shutdown", "no announce with event stopped") };
            check(&read(&r, "")?, &su, &ih, &[su.left(*v.last().unwrap())], &[Some("stopped")], &[None])?;
            answer(&mut conn, "200 OK", &reply(100, &[], None)).await;
            Ok(h((su.length, late)))
        })
    });
    let d2 = ctx.by(2, 3);
    ctx.explore("two-trackers", opts().fresh(false), move |ch| c27_two(ch, d2));
    ctx.explore("same-host", opts().fresh(false), move |ch| c27_same_host(ch, d2));
    ctx.explore("sizes", opts().fresh(false), move |ch| c27_sizes(ch));
    ctx.explore("intervals", opts().fresh(false), move |ch| c27_intervals(ch));
    ctx.explore("outage", opts().fresh(false), move |ch| c27_outage(ch));
}

fn main() {
    // root certificates are of no use here and slow to load
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    for v in ["http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY", "https_proxy", "HTTPS_PROXY"] {
        std::env::remove_var(v);
    }
    mc::main(&[("C25", c25), ("C26", c26), ("C27", c27)]);
}

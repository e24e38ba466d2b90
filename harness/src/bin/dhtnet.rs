//! C19-C24: the running DHT service against simulated nodes and clients.
use harness::bencode::{self, bytes, dict, int, list, V};
use harness::mc::{self, fail, h, opts, Ch, Ctx, Fail, R};
use harness::krpc::*;
use harness::net::{addr, Udp};
use harness::sys;
use harness::{ensure, ensure_eq, rt};
use nargun::verif::capped_growing_interval::CappedGrowingInterval;
use nargun::verif::data_structures::ID;
use nargun::verif::dht::{start_dht, RoutingTable};
use nargun::verif::peers::active_peers::{Peers, Status};
use nargun::verif::peers::peer::Peer;
use nargun::verif::shutdown;
use std::collections::{BTreeMap, BTreeSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::time::Instant;

const TCP_PORT: u16 = 40001;
// ------------------------------------------------------------------ service
fn home() -> String {
    let d = format!("{}/home", sys::scratch());
    std::fs::create_dir_all(&d).unwrap();
    sys::with(|e| {
        e.rewrite.retain(|r| r.0 != "/nargun-home");
        e.rewrite.push(("/nargun-home".into(), d.clone()));
    });
    d
}
struct Svc {
    tx: mpsc::Sender<A>,
    sd: Option<shutdown::Sender>,
    peers: Peers,
    own: B,
    ih: B,
    /// client used for probing
    probe: Udp,
}
const IH: B = [0x5a; 20];
impl Svc {
    /// `saved`: the routing table of the previous run (None: first start)
    async fn start(saved: Option<Vec<(B, A)>>, pool: &[A]) -> Svc {
        let _ = home();
        let peers = Peers::new(&ID::new(IH));
        for p in pool {
            peers.insert(Peer::new(*p));
        }
        Svc::start_in(saved, peers).await
    }
    async fn start_in(saved: Option<Vec<(B, A)>>, peers: Peers) -> Svc {
        if let Some(s) = saved {
            let mut t = RoutingTable::new().await;
            for (id, a) in s {
                t.touch_node(ID::new(id), a);
            }
            t.store().await;
        }
        let (sd, rx) = shutdown::channel();
        let (tx, drx) = mpsc::channel(1 << 8);
        let probe = Udp::new(addr(200, 7777));
        start_dht(TCP_PORT, peers.clone(), ID::new(IH), drx, rx).await;
        rt::settle().await;
        let mut s = Svc { tx, sd: Some(sd), peers, own: [0; 20], ih: IH, probe };
        s.own = s.own_id().await.unwrap_or([0; 20]);
        s
    }
    async fn own_id(&self) -> Option<B> {
        self.probe.drain();
        self.probe.send(svc_addr(), &bencode::encode(&q_ping(b"pr", &[1; 20])));
        rt::settle().await;
        match recv(&self.probe).ok()?.first()? {
            Got::Reply { id, .. } => Some(*id),
            _ => None,
        }
    }
    /// Sends a datagram and lets everything happen.
    async fn feed(&self, u: &Udp, x: &[u8]) {
        u.send(svc_addr(), x);
        rt::settle().await;
    }
    /// The service must answer a ping.
    async fn alive(&self, what: impl Fn() -> String) -> Result<(), Fail> {
        mc::no_panic()?;
        match self.own_id().await {
            Some(o) if o == self.own => Ok(()),
            Some(_) => fail("own-id", format!("after {} the service answers with another id", what())),
            None => fail("dead-service", format!("after {} a ping is not answered", what())),
        }
    }
    /// Is the node in the routing table? (asked by a find_node query for exactly that id)
    async fn knows(&self, id: &B) -> Result<bool, Fail> {
        let n = self.closest(id).await?;
        Ok(n.iter().any(|x| x.0 == *id))
    }
    async fn closest(&self, id: &B) -> Result<Vec<(B, A)>, Fail> {
        self.probe.drain();
        self.feed(&self.probe, &bencode::encode(&q_find(b"cl", &[1; 20], id))).await;
        match recv(&self.probe)?.as_slice() {
            [Got::Reply { nodes: Some(n), .. }] => Ok(n.clone()),
            o => fail("no-reply", format!("find_node was answered with {o:?}")),
        }
    }
    /// Makes the service ping the hosts and answers for them.
    async fn join(&self, hosts: &[(&Udp, B)]) -> Result<(), Fail> {
        for (u, id) in hosts {
            self.tx.send(u.addr).await.ok();
            rt::settle().await;
            let mut n = 0;
            for g in recv(u)? {
                if let Got::Ping { tid, .. } = g {
                    u.send(svc_addr(), &bencode::encode(&r_ping(&tid, id)));
                    n += 1;
                }
            }
            ensure_eq!(n, 1, "no-ping", "pings sent to an address learned from a peer");
            rt::settle().await;
        }
        Ok(())
    }
    fn pool(&self) -> BTreeSet<A> {
        self.peers.peer_addresses().iter().map(|p| *p.addr()).collect()
    }
}
fn rid(n: u8) -> B {
    let mut x = [n.wrapping_mul(37) ^ 0x11; 20];
    x[19] = n;
    x
}
fn hosts(n: usize) -> Vec<Udp> {
    (0..n).map(|i| Udp::new(addr(10 + i as u8, 5000 + i as u16))).collect()
}

// ------------------------------------------------------------------ C19
/// Every message a correct peer might send; responses get the transaction id of a pending query.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Base {
    QPing,
    QFind,
    QGet,
    QAnnounce,
    QAnnounceOk,
    Err,
    ErrPending,
    RPingStray,
    RFindStray,
    RGetStray,
    RPing,
    RFind,
    RFindEmpty,
    RGetNodes,
    RGetValues,
    Extra,
}
const BASES: [Base; 16] = [
    Base::QPing,
    Base::QFind,
    Base::QGet,
    Base::QAnnounce,
    Base::QAnnounceOk,
    Base::Err,
    Base::ErrPending,
    Base::RPingStray,
    Base::RFindStray,
    Base::RGetStray,
    Base::RPing,
    Base::RFind,
    Base::RFindEmpty,
    Base::RGetNodes,
    Base::RGetValues,
    Base::Extra,
];
#[derive(Clone, Debug, Default)]
struct Pend {
    ping: Vec<u8>,
    find: Vec<u8>,
    get: Vec<u8>,
    token: Vec<u8>,
}
impl Pend {
    fn placeholder() -> Pend {
        Pend { ping: vec![b'p'; 5], find: vec![b'f'; 5], get: vec![b'g'; 5], token: vec![b't'; 20] }
    }
}
fn base(x: Base, p: &Pend) -> V {
    let id = rid(3);
    let fresh = [(rid(70), addr(70, 7070)), (rid(71), addr(71, 7071))];
    let vals = [addr(80, 8080), addr(81, 8081)];
    match x {
        Base::QPing => q_ping(b"aa", &id),
        Base::QFind => q_find(b"aa", &id, &rid(9)),
        Base::QGet => q_get(b"aa", &id, &[0x33; 20]),
        Base::QAnnounce => q_announce(b"aa", &id, &IH, 6881, b"tokentoken"),
        Base::QAnnounceOk => q_announce(b"aa", &id, &IH, 6881, &p.token),
        Base::Err => error(b"aa"),
        Base::ErrPending => error(&p.ping),
        Base::RPingStray => r_ping(b"zzzzz", &id),
        Base::RFindStray => r_find(b"zzzzz", &id, &fresh),
        Base::RGetStray => r_get_values(b"zzzzz", &id, b"tk", &vals),
        Base::RPing => r_ping(&p.ping, &id),
        Base::RFind => r_find(&p.find, &id, &fresh),
        Base::RFindEmpty => r_find(&p.find, &id, &[]),
        Base::RGetNodes => r_get_nodes(&p.get, &id, b"tk", &fresh),
        Base::RGetValues => r_get_values(&p.get, &id, b"tk", &vals),
        Base::Extra => dict(vec![
            (k("a"), dict(vec![(k("id"), bytes(&id)), (k("target"), bytes(&rid(9))), (k("want"), list(vec![bencode::s("n4")]))])),
            (k("q"), bencode::s("find_node")),
            (k("ro"), int(1)),
            (k("t"), bencode::s("aa")),
            (k("v"), bencode::s("UT12")),
            (k("y"), bencode::s("q")),
        ]),
    }
}
fn leaf_paths(v: &V, at: Vec<usize>, out: &mut Vec<Vec<usize>>) {
    match v {
        V::Dict(d) => {
            if !at.is_empty() {
                out.push(at.clone());
            }
            for (i, (_, x)) in d.iter().enumerate() {
                let mut a = at.clone();
                a.push(i);
                leaf_paths(x, a, out);
            }
        }
        V::List(l) => {
            out.push(at.clone());
            for (i, x) in l.iter().enumerate() {
                let mut a = at.clone();
                a.push(i);
                leaf_paths(x, a, out);
            }
        }
        _ => out.push(at),
    }
}
fn set_path(v: &mut V, path: &[usize], to: Option<V>) {
    match v {
        V::Dict(d) => {
            if path.len() == 1 {
                match to {
                    Some(x) => d[path[0]].1 = x,
                    None => {
                        d.remove(path[0]);
                    }
                }
            } else {
                set_path(&mut d[path[0]].1, &path[1..], to)
            }
        }
        V::List(l) => {
            if path.len() == 1 {
                match to {
                    Some(x) => l[path[0]] = x,
                    None => {
                        l.remove(path[0]);
                    }
                }
            } else {
                set_path(&mut l[path[0]], &path[1..], to)
            }
        }
        _ => (),
    }
}
fn substitutes() -> Vec<Option<V>> {
    let mut v: Vec<Option<V>> = vec![None];
    for n in [0usize, 1, 2, 3, 5, 6, 7, 12, 19, 20, 21, 25, 26, 27, 40, 52, 255, 700] {
        v.push(Some(bytes(&vec![0xa5; n])));
    }
    for n in [0i128, 1, -1, 65535, 65536, 1 << 31, 1 << 32, 1 << 63, -(1 << 63), 1 << 64, 1 << 100] {
        v.push(Some(int(n)));
    }
    v.push(Some(list(vec![])));
    v.push(Some(list(vec![bytes(&[1; 6]); 3])));
    v.push(Some(list(vec![bytes(&[1; 5])])));
    v.push(Some(list(vec![int(1), list(vec![])])));
    v.push(Some(dict(vec![])));
    v.push(Some(dict(vec![(k("id"), bytes(&[1; 19]))])));
    v
}
#[derive(Clone, Debug)]
enum Mut {
    None,
    Cut(usize),
    Put(usize, u8),
    Field(Vec<usize>, usize),
    Insert(usize, u8),
    Tail(usize),
}
fn mutants(x: Base, quick: bool) -> Vec<Mut> {
    let v = base(x, &Pend::placeholder());
    let raw = bencode::encode(&v);
    let mut m = vec![Mut::None];
    for i in 0..raw.len() {
        m.push(Mut::Cut(i));
        if quick {
            let mut seen = BTreeSet::from([raw[i]]);
            for c in [0u8, b'0', b'1', b'9', b':', b'-', b'd', b'e', b'i', b'l', 0xff, raw[i] ^ 1, raw[i].wrapping_add(1)] {
                if seen.insert(c) {
                    m.push(Mut::Put(i, c));
                }
            }
        } else {
            for c in 0..=255u8 {
                if c != raw[i] {
                    m.push(Mut::Put(i, c));
                }
            }
            for c in [0u8, b'0', b'1', b':', b'-', b'd', b'e', b'i', b'l'] {
                m.push(Mut::Insert(i, c));
            }
        }
    }
    let mut paths = vec![];
    leaf_paths(&v, vec![], &mut paths);
    for p in paths {
        for s in 0..substitutes().len() {
            m.push(Mut::Field(p.clone(), s));
        }
    }
    for t in 0..4 {
        m.push(Mut::Tail(t));
    }
    m
}
fn mutate(v: &V, m: &Mut) -> Vec<u8> {
    let mut raw = bencode::encode(v);
    match m {
        Mut::None => (),
        Mut::Cut(i) => raw.truncate(*i),
        Mut::Put(i, c) => raw[*i] = *c,
        Mut::Insert(i, c) => raw.insert(*i, *c),
        Mut::Field(p, s) => {
            let mut v = v.clone();
            set_path(&mut v, p, substitutes()[*s].clone());
            raw = bencode::encode(&v);
        }
        Mut::Tail(t) => raw.extend(match t {
            0 => vec![b'e'],
            1 => vec![0; 40],
            2 => bencode::encode(&q_ping(b"tl", &[2; 20])),
            _ => vec![b'x'; 2600],
        }),
    }
    raw
}
/// Datagrams that are not derived from a message.
fn raws() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for c in 0..=255u8 {
        v.push(vec![c]);
    }
    for n in [2usize, 3, 100, 1299, 1300, 1301, 2599, 2600, 2601, 5000, 60000] {
        for c in [0u8, b'0', b'd', b'l', b'i', b'e', b'1', b':', 0xff] {
            v.push(vec![c; n]);
        }
    }
    for x in ["de", "d", "le", "i1e", "0:", "1:a", "d1:a", "d1:ai1ee", "d1:t2:aae", "d1:y1:qe", "d1:t2:aa1:y1:qe", "d1:t2:aa1:y1:re", "d1:t2:aa1:y1:ee", "99999999999999999999:", "9223372036854775807:a", "4294967295:", "i99999999999999999999999999e", "i-0e", "i00e", "d0:0:e", "di1ei2ee"] {
        v.push(x.as_bytes().to_vec());
    }
    // valid queries that don't fit the usual datagram size
    for n in [1200usize, 1300, 2400, 2500, 2590, 2600, 2700, 5000, 60000] {
        let mut q = q_ping(&vec![b't'; 4], &rid(3));
        if let V::Dict(d) = &mut q {
            d.push((k("zz"), bytes(&vec![b'z'; n])));
        }
        v.push(bencode::encode(&q));
    }
    v
}
struct Bench {
    s: Svc,
    h: Vec<Udp>,
    pend: Pend,
}
/// A service with one good node and pending ping, find_node and get_peers queries to it.
async fn bench(pending: bool) -> Result<Bench, Fail> {
    let s = Svc::start(None, &[addr(90, 9090)]).await;
    let mut hs = hosts(1);
    for (i, p) in [(70u8, 7070u16), (71, 7071), (200, 1)] {
        hs.push(Udp::new(addr(i, p)));
    }
    let mut pend = Pend::placeholder();
    // hs[3] has the address of the probe with another port
    s.probe.drain();
    s.feed(&s.probe, &bencode::encode(&q_get(b"aa", &rid(1), &IH))).await;
    if let Some(Got::Reply { token: Some(t), .. }) = recv(&s.probe)?.pop() {
        pend.token = t;
    } else {
        return fail("no-token", "get_peers was not answered with a token");
    }
    if pending {
        s.join(&[(&hs[0], rid(2))]).await?;
        rt::pass(Duration::from_millis(7500)).await;
        s.tx.send(hs[0].addr).await.ok();
        rt::settle().await;
        for g in recv(&hs[0])? {
            match g {
                Got::Ping { tid, .. } => pend.ping = tid,
                Got::Find { tid, .. } => pend.find = tid,
                Got::Get { tid, .. } => pend.get = tid,
                _ => (),
            }
        }
        let pl = Pend::placeholder();
        ensure!(pend.ping != pl.ping && pend.find != pl.find && pend.get != pl.get, "no-query", "the service did not query its only good node: {pend:?}");
    }
    Ok(Bench { s, h: hs, pend })
}
fn is_pending(x: Base) -> bool {
    matches!(x, Base::ErrPending | Base::RPing | Base::RFind | Base::RFindEmpty | Base::RGetNodes | Base::RGetValues)
}
impl Bench {
    async fn effects(&self) -> Result<String, Fail> {
        let mut kn = vec![];
        for i in [2, 3, 70, 71] {
            kn.push(self.s.knows(&rid(i)).await?);
        }
        Ok(format!("{kn:?} {:?}", self.s.pool()))
    }
    async fn shoot(&self, x: Base, d: &[u8]) -> Result<String, Fail> {
        let from = if is_pending(x) { &self.h[0] } else { &self.h[3] };
        for u in &self.h {
            u.drain();
        }
        self.s.feed(from, d).await;
        let mut out = vec![];
        for u in &self.h {
            for g in recv(u)? {
                // ids of queries are random
                out.push((u.addr, match g {
                    Got::Ping { id, .. } => format!("ping {id:?}"),
                    Got::Get { id, ih, .. } => format!("get {id:?} {ih:?}"),
                    o => format!("{o:?}"),
                }));
            }
        }
        Ok(format!("{out:?}"))
    }
}
fn c19(ctx: &mut Ctx) {
    let quick = ctx.quick();
    ctx.assume("datagrams: every truncation, single byte substitution (thorough: all 255 values and insertions) and field deviation of 16 base messages, plus raw datagrams; each alone and right after each kind of earlier datagram");
    let mut all: Vec<(Base, Mut)> = vec![];
    for x in BASES {
        all.extend(mutants(x, quick).into_iter().map(|m| (x, m)));
    }
    let all = std::sync::Arc::new(all);
    let priors = [Base::RGetValues, Base::QAnnounce, Base::Extra, Base::QPing, Base::RFindStray];
    let stray: Vec<_> = all.iter().filter(|x| !is_pending(x.0)).cloned().collect();
    ctx.each("one datagram after another", stray.len() as u64, move |i| {
        let (x, m) = stray[i as usize].clone();
        rt::run(Default::default(), async move {
            let what = || format!("{m:?} of {x:?}");
            let t = bench(false).await?;
            let d = mutate(&base(x, &t.pend), &m);
            let first = t.shoot(x, &d).await?;
            t.s.alive(what).await?;
            for p in priors {
                // the earlier datagram: a stray one, so it has no effect of its own
                t.shoot(Base::QPing, &bencode::encode(&base(p, &Pend::placeholder()))).await?;
                let o = t.shoot(x, &d).await?;
                ensure!(o == first, "depends-on-earlier", "{} ({:?}) has effect {o} after {p:?} and {first} on its own", what(), String::from_utf8_lossy(&d));
            }
            t.s.alive(what).await?;
            Ok(h(first))
        })
    });
    let answers: Vec<_> = all.iter().filter(|x| is_pending(x.0)).cloned().collect();
    ctx.each("one response after another datagram", answers.len() as u64, move |i| {
        let (x, m) = answers[i as usize].clone();
        let mut first: Option<String> = None;
        for p in [None, Some(Base::RGetStray), Some(Base::QAnnounce), Some(Base::RFindStray)] {
            if quick && p.is_some() && (i + p.unwrap() as u64) % 3 != 0 {
                continue;
            }
            let m = m.clone();
            let f2 = first.clone();
            sys::seed(1);
            let o = rt::run(Default::default(), async move {
                let t = bench(true).await?;
                let d = mutate(&base(x, &t.pend), &m);
                if let Some(p) = p {
                    t.shoot(Base::QPing, &bencode::encode(&base(p, &Pend::placeholder()))).await?;
                }
                let o = t.shoot(x, &d).await?;
                t.s.alive(|| format!("{m:?} of {x:?}")).await?;
                let o = format!("{o} {}", t.effects().await?);
                if let Some(f) = f2 {
                    ensure!(o == f, "depends-on-earlier", "{m:?} of {x:?} ({:?}) has effect {o} after {p:?} and {f} on its own", String::from_utf8_lossy(&d));
                }
                Ok(o)
            })?;
            first.get_or_insert(o);
        }
        Ok(h(first))
    });
    let rs = std::sync::Arc::new(raws());
    ctx.each("raw datagrams", rs.len() as u64, move |i| {
        let rs = rs.clone();
        rt::run(Default::default(), async move {
            let t = bench(false).await?;
            let d = &rs[i as usize];
            let first = t.shoot(Base::QPing, d).await?;
            t.s.alive(|| format!("raw datagram {i}")).await?;
            for p in priors {
                t.shoot(Base::QPing, &bencode::encode(&base(p, &Pend::placeholder()))).await?;
                let o = t.shoot(Base::QPing, d).await?;
                ensure!(o == first, "depends-on-earlier", "raw datagram {i} has effect {o} after {p:?} and {first} on its own");
            }
            t.s.alive(|| format!("raw datagram {i}")).await?;
            Ok(h(first))
        })
    });
    // many datagrams at once: the service must not get stuck
    let kinds = 7u64;
    let sizes: Vec<usize> = ctx.by(vec![40, 600], vec![40, 130, 257, 300, 600, 1500, 3000]);
    ctx.each("floods", kinds * kinds * sizes.len() as u64 * 2, move |i| {
        let n = sizes[(i / (kinds * kinds * 2)) as usize];
        let (a, c, mixed) = (i % kinds, i / kinds % kinds, i / (kinds * kinds) % 2 == 1);
        rt::run(Default::default(), async move {
            let t = bench(false).await?;
            // many parts of the table have room: many find_node queries at the next refresh
            let deep: Vec<Udp> = (0..10).map(|x| Udp::new(addr(20 + x, 6000))).collect();
            for (x, u) in deep.iter().enumerate() {
                let mut id = t.s.own;
                id[x / 8] ^= 0x80 >> (x % 8);
                t.s.join(&[(u, id)]).await?;
            }
            for x in 0..9u8 {
                // overfull own bucket: forces splits
                let u = Udp::new(addr(40 + x, 6000));
                let mut id = t.s.own;
                id[15] ^= x + 1;
                t.s.join(&[(&u, id)]).await?;
            }
            rt::pass(Duration::from_millis(3200)).await;
            let mut answers = vec![];
            for u in &deep {
                for g in recv(u)? {
                    if let Got::Find { tid, .. } = g {
                        let ns: Vec<(B, A)> = (0..90u8).map(|q| (rid(q), addr(100 + (answers.len() % 100) as u8, 1000 + q as u16))).collect();
                        answers.push((u, bencode::encode(&r_find(&tid, &rid(250), &ns))));
                    }
                }
            }
            let one = |kind: u64, m: usize| -> Vec<u8> {
                bencode::encode(&match kind {
                    0 => q_ping(b"aa", &rid(5)),
                    1 => q_find(b"aa", &rid(5), &rid(m as u8)),
                    2 => q_get(b"aa", &rid(5), &IH),
                    3 => q_announce(b"aa", &rid(5), &[m as u8; 20], m as u16 + 1, &t.pend.token),
                    4 => r_ping(b"abcde", &rid(5)),
                    5 => error(b"abcde"),
                    _ => q_find(b"bb", &rid(5), &t.s.own),
                })
            };
            let from = &t.h[3];
            let mut want = 0;
            for (u, x) in &answers {
                u.send(svc_addr(), x);
            }
            for m in 0..n {
                for kind in if mixed { vec![a, c] } else { vec![if m < n / 2 { a } else { c }] } {
                    from.send(svc_addr(), &one(kind, m));
                    want += (kind != 4 && kind != 5) as usize;
                }
            }
            rt::settle().await;
            rt::settle().await;
            let got = from.drain().len();
            ensure_eq!(got, want, "flood-replies", "replies to a burst of {want} queries along with {} find_node answers", answers.len());
            t.s.alive(|| format!("a burst of {n} datagrams of kinds {a},{c}")).await?;
            t.s.closest(&rid(9)).await?;
            Ok(h((got, answers.len())))
        })
    });
    // addresses nothing can be sent to, wherever a datagram can name one
    let nowhere = [A::new(Ipv4Addr::new(10, 0, 0, 9), 0), A::new(Ipv4Addr::BROADCAST, 6881), A::new(Ipv4Addr::new(240, 0, 0, 1), 6881), A::new(Ipv4Addr::BROADCAST, 0), A::new(Ipv4Addr::UNSPECIFIED, 0)];
    ctx.each("addresses nothing can be sent to", 5 * 5 * 2, move |i| {
        let (a, how, crowd) = (nowhere[(i % 5) as usize], i / 5 % 5, i / 25 == 1);
        rt::run(Default::default(), async move {
            let what = || format!("address {a} named in way {how}");
            let t = bench(true).await?;
            // named alone or amid others that are reachable
            let fine = Udp::new(addr(61, 3001));
            let fid = rid(101);
            let ns: Vec<(B, A)> = if crowd { vec![(rid(7), a), (fid, fine.addr)] } else { vec![(rid(7), a)] };
            let d = match how {
                0 => r_find(&t.pend.find, &rid(2), &ns),
                1 => r_get_nodes(&t.pend.get, &rid(2), b"tk", &ns),
                2 => r_get_values(&t.pend.get, &rid(2), b"tk", &[a, addr(62, 3002)]),
                3 => {
                    t.s.tx.send(a).await.ok();
                    r_ping(&t.pend.ping, &rid(2))
                }
                _ => q_announce(b"aa", &rid(3), &IH, a.port(), &t.pend.token),
            };
            t.s.feed(&t.h[if how == 4 { 3 } else { 0 }], &bencode::encode(&d)).await;
            t.s.alive(what).await?;
            if crowd && how < 2 {
                let got = recv(&fine)?;
                ensure!(got.iter().any(|g| matches!(g, Got::Ping { .. } | Got::Get { .. })), "not-asked", "{}: the node named after it was sent {got:?}", what());
            }
            // the search rounds and refreshes that follow go on, too
            for u in &t.h {
                u.drain();
            }
            let mut asked = 0;
            for _ in 0..20 {
                rt::pass(Duration::from_secs(2)).await;
                for g in recv(&t.h[0])? {
                    if let Got::Get { tid, .. } = g {
                        asked += 1;
                        t.s.feed(&t.h[0], &bencode::encode(&r_get_values(&tid, &rid(2), b"tk", &[addr(63, 3000 + asked)]))).await;
                    }
                }
            }
            t.s.alive(what).await?;
            ensure!(asked >= 2, "search-stopped", "{}: {asked} search rounds in 40 s", what());
            let pool = t.s.pool();
            ensure!((1..=asked).all(|x| pool.contains(&addr(63, 3000 + x))), "value-lost", "{}: the peers told after it are not all in the pool: {pool:?}", what());
            Ok(h((asked, pool.len())))
        })
    });
    // the n-th datagram cannot be sent: that one is lost, as datagrams may be, and nothing else
    let n = ctx.by(16u64, 40);
    let errs = [libc::ENETUNREACH, libc::EPERM, libc::ENOBUFS, libc::ECONNREFUSED];
    ctx.each("sends that fail", n * 4 * 2, move |i| {
        let (k, e, two) = (i % n, errs[(i / n % 4) as usize], i / (4 * n) == 1);
        rt::run(Default::default(), async move {
            let t = bench(true).await?;
            let what = || format!("error {e} for datagram {k} from here on");
            let c = &t.h[3];
            sys::with(|x| {
                let at = x.sent_from.get(&UDP_PORT).cloned().unwrap_or(0);
                x.send_faults = vec![(UDP_PORT, at + k, e)];
                if two {
                    x.send_faults.push((UDP_PORT, at + k + 1, e));
                }
            });
            let qs = [q_ping(b"q0", &rid(5)), q_find(b"q1", &rid(5), &rid(6)), q_get(b"q2", &rid(5), &IH), q_get(b"q3", &rid(5), &OTHER), q_announce(b"q4", &rid(5), &OTHER, 4444, &t.pend.token), q_get(b"q5", &rid(5), &OTHER)];
            let mut got = 0;
            for q in &qs {
                t.s.feed(c, &bencode::encode(q)).await;
                got += c.drain().len();
            }
            let mut sent = vec![];
            for r in 0..6 {
                t.s.tx.send(t.h[0].addr).await.ok();
                rt::pass(Duration::from_secs(4)).await;
                for g in recv(&t.h[0])? {
                    let d = match &g {
                        Got::Ping { tid, .. } => r_ping(tid, &rid(2)),
                        Got::Find { tid, .. } => r_find(tid, &rid(2), &[(rid(9), t.h[1].addr)]),
                        Got::Get { tid, .. } => r_get_values(tid, &rid(2), b"tk", &[addr(63, 3000 + r)]),
                        _ => continue,
                    };
                    sent.push(matches!(g, Got::Get { .. }));
                    t.s.feed(&t.h[0], &bencode::encode(&d)).await;
                }
            }
            mc::no_panic()?;
            let failed = sys::with(|x| {
                let at = x.sent_from.get(&UDP_PORT).cloned().unwrap_or(0);
                let f = x.send_faults.iter().filter(|f| f.1 < at).count();
                x.send_faults.clear();
                f
            })
            .unwrap_or(0);
            ensure!(got + failed >= qs.len(), "replies-lost", "{}: {got} of {} queries answered, {failed} sends failed", what(), qs.len());
            t.s.alive(what).await?;
            ensure!(sent.iter().any(|g| *g), "search-stopped", "{}: no search round in 24 s", what());
            Ok(h((got, sent.len())))
        })
    });
    // answers to get_peers that come after the round they belong to is over
    let sizes: Vec<usize> = ctx.by(vec![1, 60, 65, 90], vec![1, 30, 63, 64, 65, 80, 90]);
    ctx.each("late answers", sizes.len() as u64 * 3, move |i| {
        let n = sizes[(i / 3) as usize];
        let again = (i % 3) as usize;
        rt::run(Default::default(), async move {
            let t = bench(true).await?;
            let many: Vec<Udp> = (0..n).map(|x| Udp::new(addr(60, 3000 + x as u16))).collect();
            let ns: Vec<(B, A)> = many.iter().enumerate().map(|(x, u)| (rid(x as u8 + 100), u.addr)).collect();
            t.s.feed(&t.h[0], &bencode::encode(&r_get_nodes(&t.pend.get, &rid(2), b"tk", &ns))).await;
            rt::pass(Duration::from_millis(3500)).await;
            for (x, u) in many.iter().enumerate() {
                for g in recv(u)? {
                    if let Got::Get { tid, .. } = g {
                        let m = bencode::encode(&r_get_values(&tid, &ns[x].0, b"tk", &[addr(150, 1000 + x as u16)]));
                        for _ in 0..=again {
                            u.send(svc_addr(), &m);
                        }
                    }
                }
            }
            rt::settle().await;
            t.s.alive(|| format!("{n} answers after the end of the round")).await?;
            rt::pass(Duration::from_secs(30)).await;
            t.s.alive(|| format!("{n} answers after the end of the round, a round later")).await?;
            let pool = t.s.pool();
            for x in 0..n {
                ensure!(pool.contains(&addr(150, 1000 + x as u16)), "late-lost", "the peer in late answer {x} of {n} is not in the pool after the next round");
            }
            Ok(h(n))
        })
    });
}

// ------------------------------------------------------------------ C20
#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    Ping,
    FindKnown,
    FindOther,
    FindOwn,
    GetTorrent,
    GetOther,
    Announce,
    AnnounceOther,
    AnnounceBad,
    /// a response, an error, garbage
    Resp,
    Err,
    Junk,
}
const QS: [Q; 12] = [Q::Ping, Q::FindKnown, Q::FindOther, Q::FindOwn, Q::GetTorrent, Q::GetOther, Q::Announce, Q::AnnounceOther, Q::AnnounceBad, Q::Resp, Q::Err, Q::Junk];
const OTHER: B = [0x33; 20];
struct Model {
    own: B,
    table: Vec<(B, A)>,
    pool: BTreeSet<A>,
    others: BTreeMap<B, BTreeSet<A>>,
}
impl Model {
    fn closest(&self, t: &B) -> Vec<(B, A)> {
        if let Some(x) = self.table.iter().find(|x| x.0 == *t) {
            return vec![*x];
        }
        let mut v = self.table.clone();
        v.sort_by_key(|x| xor(&x.0, t));
        v.truncate(8);
        v
    }
    fn get(&self, tid: &[u8], ih: &B) -> String {
        let v = if *ih == IH { self.pool.clone() } else { self.others.get(ih).cloned().unwrap_or_default() };
        if v.is_empty() {
            canon(&Got::Reply { tid: tid.to_vec(), id: self.own, nodes: Some(self.closest(ih)), token: Some(vec![1]), values: None })
        } else {
            canon(&Got::Reply { tid: tid.to_vec(), id: self.own, nodes: None, token: Some(vec![1]), values: Some(v.into_iter().collect()) })
        }
    }
}
/// A datagram up to the order of its lists and the value of its token.
fn canon(g: &Got) -> String {
    let mut g = g.clone();
    if let Got::Reply { nodes, token, values, .. } = &mut g {
        if let Some(n) = nodes {
            n.sort();
        }
        if let Some(n) = values {
            n.sort();
        }
        if let Some(t) = token {
            *t = if t.is_empty() { vec![] } else { vec![1] };
        }
    }
    format!("{g:?}")
}
/// A service whose table holds `n` answering nodes spread over the id space.
async fn with_table(n: usize, pool: &[A]) -> Result<(Svc, Vec<Udp>, Model), Fail> {
    let s = Svc::start(None, pool).await;
    let us: Vec<Udp> = (0..n).map(|x| Udp::new(addr(20 + x as u8, 6000))).collect();
    let mut table = vec![];
    for (x, u) in us.iter().enumerate() {
        let mut id = s.own;
        id[0] ^= 0x80 >> (x % 4);
        id[19] ^= 7 * x as u8 + 1;
        id[7] ^= x as u8;
        s.join(&[(u, id)]).await?;
        table.push((id, u.addr));
        for u in &us {
            u.drain();
        }
    }
    let own = s.own;
    Ok((s, us, Model { own, table, pool: pool.iter().cloned().collect(), others: BTreeMap::new() }))
}
struct Clients {
    us: Vec<Udp>,
    tokens: Vec<Vec<u8>>,
}
async fn clients(s: &Svc) -> Result<Clients, Fail> {
    let us = vec![Udp::new(addr(1, 1111)), Udp::new(addr(2, 2222)), Udp::new(addr(1, 1112))];
    let mut tokens = vec![];
    for u in &us {
        s.feed(u, &bencode::encode(&q_get(b"tk", &rid(1), &[0x44; 20]))).await;
        match recv(u)?.as_slice() {
            [Got::Reply { token: Some(t), .. }] => tokens.push(t.clone()),
            o => return fail("no-reply", format!("get_peers answered with {o:?}")),
        }
    }
    Ok(Clients { us, tokens })
}
/// The datagram of an operation and the reply it must get (None: no reply but possibly an error).
fn exchange(q: Q, c: usize, cl: &Clients, tid: &[u8], step: usize, m: &mut Model) -> (Vec<u8>, Option<String>) {
    let me = rid(c as u8 + 1);
    let port = 7000 + step as u16;
    let plain = Some(canon(&Got::Reply { tid: tid.to_vec(), id: m.own, nodes: None, token: None, values: None }));
    let find = |m: &Model, t: &B| Some(canon(&Got::Reply { tid: tid.to_vec(), id: m.own, nodes: Some(m.closest(t)), token: None, values: None }));
    let (v, e) = match q {
        Q::Ping => (q_ping(tid, &me), plain),
        Q::FindKnown => {
            let t = m.table.last().map(|x| x.0).unwrap_or(rid(99));
            (q_find(tid, &me, &t), find(m, &t))
        }
        Q::FindOther => (q_find(tid, &me, &IH), find(m, &IH)),
        Q::FindOwn => (q_find(tid, &me, &m.own), find(m, &m.own)),
        Q::GetTorrent => (q_get(tid, &me, &IH), Some(m.get(tid, &IH))),
        Q::GetOther => (q_get(tid, &me, &OTHER), Some(m.get(tid, &OTHER))),
        Q::Announce => {
            m.pool.insert(SocketAddrV4::new(*cl.us[c].addr.ip(), port));
            (q_announce(tid, &me, &IH, port, &cl.tokens[c]), plain)
        }
        Q::AnnounceOther => {
            m.others.entry(OTHER).or_default().insert(SocketAddrV4::new(*cl.us[c].addr.ip(), port));
            (q_announce(tid, &me, &OTHER, port, &cl.tokens[c]), plain)
        }
        Q::AnnounceBad => (q_announce(tid, &me, &IH, port, b"never issued"), None),
        Q::Resp => (r_get_values(tid, &me, b"tk", &[addr(66, 66)]), None),
        Q::Err => (error(tid), None),
        Q::Junk => return ([tid, b"d1:ad2:id20:"].concat(), None),
    };
    (bencode::encode(&v), e)
}
fn settle_up(us: &[Udp], want: &mut Vec<(usize, String)>, what: &str) -> Result<u64, Fail> {
    let mut seen = vec![];
    for (c, u) in us.iter().enumerate() {
        for g in recv(u)? {
            if let Got::Error { .. } = g {
                continue;
            }
            let x = (c, canon(&g));
            match want.iter().position(|w| *w == x) {
                Some(p) => {
                    want.swap_remove(p);
                }
                None => return fail("wrong-reply", format!("{what}: client {c} got {}; replies still expected: {want:?}", x.1)),
            }
            seen.push(x);
        }
    }
    if let Some(w) = want.first() {
        return fail("no-reply", format!("{what}: client {} did not get {}", w.0, w.1));
    }
    Ok(h(seen))
}
fn c20(ctx: &mut Ctx) {
    let quick = ctx.quick();
    ctx.assume("query sequences from 3 client addresses (two share an IP) over tables of 0, 1, 5 and 12 good nodes; fewer than 200 known peers except in one scenario (up to 9000; thorough 60000)");
    let depth = ctx.by(2u32, 3);
    let nq = QS.len() as u64 * 3;
    let seqs = nq.pow(depth);
    let tables = [0usize, 1, 5, 12];
    let pools = 3u64;
    ctx.each("query histories", seqs * 4 * pools * 2, move |i| {
        let burst = i % 2 == 1;
        let n = tables[(i / 2 % 4) as usize];
        let pool: Vec<A> = (0..(i / 8 % pools) as u8).map(|x| addr(90 + x, 9090)).collect();
        let mut c = i / (8 * pools);
        rt::run(Default::default(), async move {
            let (s, us, mut m) = with_table(n, &pool).await?;
            let cl = clients(&s).await?;
            let mut want = vec![];
            let mut seen = vec![];
            for step in 0..depth as usize {
                let (q, who) = (QS[(c % nq / 3) as usize], (c % 3) as usize);
                c /= nq;
                let (d, e) = exchange(q, who, &cl, b"aa", step, &mut m);
                seen.push((q, who));
                cl.us[who].send(svc_addr(), &d);
                want.extend(e.map(|e| (who, e)));
                if !burst {
                    rt::settle().await;
                    settle_up(&cl.us, &mut want, &format!("{seen:?}"))?;
                }
            }
            rt::settle().await;
            let r = settle_up(&cl.us, &mut want, &format!("{seen:?} (at once: {burst})"))?;
            for u in &us {
                let g = recv(u)?;
                ensure!(g.is_empty(), "stray", "after {seen:?} the service sent {g:?} to a node that did not ask");
            }
            Ok(h((r, n)))
        })
    });
    // order of tasks and of ready events
    let depth = ctx.by(2usize, 3);
    let qs = [Q::Ping, Q::FindOther, Q::GetTorrent, Q::Announce, Q::GetOther, Q::AnnounceOther];
    ctx.explore("schedules", opts().dev(ctx.by(1, 2)), move |ch| {
        let ch2 = ch.clone();
        rt::run(rt::RtOpts { sched: true, select: true, preempt: true, ..Default::default() }, async move {
            let (s, _us, mut m) = with_table(1, &[]).await?;
            let cl = clients(&s).await?;
            let mut want = vec![];
            let mut seen = vec![];
            for step in 0..depth {
                let (q, who) = (qs[ch2.pick(qs.len())], step % 2);
                let (d, e) = exchange(q, who, &cl, b"aa", step, &mut m);
                seen.push((q, who));
                cl.us[who].send(svc_addr(), &d);
                want.extend(e.map(|e| (who, e)));
            }
            rt::settle().await;
            settle_up(&cl.us, &mut want, &format!("{seen:?}"))
        })
    });
    // transaction ids of every length and byte value
    let tids: Vec<Vec<u8>> = (0..=40usize).map(|n| vec![b'7'; n]).chain((0..=255u8).map(|c| vec![c])).chain((0..=255u8).map(|c| vec![b'1', c, b':', c])).chain([vec![b'i'; 255], vec![0; 1000]]).collect();
    let nt = tids.len() as u64;
    ctx.each("transaction ids", nt * 7, move |i| {
        let tid = tids[(i % nt) as usize].clone();
        let q = [Q::Ping, Q::FindKnown, Q::FindOther, Q::GetTorrent, Q::GetOther, Q::Announce, Q::AnnounceOther][(i / nt) as usize];
        rt::run(Default::default(), async move {
            let (s, _us, mut m) = with_table(2, &[]).await?;
            let cl = clients(&s).await?;
            let (d, e) = exchange(q, 1, &cl, &tid, 0, &mut m);
            s.feed(&cl.us[1], &d).await;
            let mut want: Vec<_> = e.map(|e| (1, e)).into_iter().collect();
            settle_up(&cl.us, &mut want, &format!("{q:?} with transaction id {tid:?}"))
        })
    });
    // every small pool, around the number that fits a datagram
    // ... and more than fit the largest datagram there is
    let sizes: Vec<usize> = ctx.by(vec![1, 2, 50, 199, 215, 216, 217, 300, 9000], (1..=320).chain([8000, 9000, 20000, 60000]).collect());
    ctx.each("many peers", sizes.len() as u64 * 2, move |i| {
        let n = sizes[(i / 2) as usize];
        let torrent = i % 2 == 0;
        rt::run(Default::default(), async move {
            let all: Vec<A> = (0..n).map(|x| addr(1, 100 + x as u16)).collect();
            let (s, _us, _m) = with_table(1, if torrent { &all } else { &[] }).await?;
            let cl = clients(&s).await?;
            if !torrent {
                for (x, a) in all.iter().enumerate() {
                    cl.us[0].send(svc_addr(), &bencode::encode(&q_announce(b"an", &rid(1), &OTHER, a.port(), &cl.tokens[0])));
                    if n < 1000 || x % 50 == 0 || x + 1 == n {
                        rt::settle().await;
                    }
                }
            }
            cl.us[0].drain();
            s.feed(&cl.us[1], &bencode::encode(&q_get(b"aa", &rid(2), if torrent { &IH } else { &OTHER }))).await;
            let got: Vec<Vec<u8>> = cl.us[1].drain();
            let longest = got.iter().map(|d| d.len()).max().unwrap_or(0);
            ensure!(longest <= 4096, "long-reply", "get_peers with {n} known peers was answered with {longest} bytes");
            match got.iter().map(|d| read(d)).collect::<Result<Vec<_>, _>>()?.as_slice() {
                [Got::Reply { tid, id, values: Some(v), token: Some(t), .. }] => {
                    ensure!(tid == b"aa" && *id == s.own && !t.is_empty(), "wrong-reply", "reply {tid:?} {id:?} {t:?}");
                    let set: BTreeSet<A> = v.iter().cloned().collect();
                    ensure_eq!(set.len(), v.len(), "duplicate-peer", "peers in the reply, each counted once");
                    ensure!(v.len() >= n.min(100), "few-peers", "{} of {n} peers in the reply", v.len());
                    ensure!(set.iter().all(|a| all.contains(a)), "unknown-peer", "a peer in the reply is not a known one");
                    Ok(h(v.len()))
                }
                o => fail("no-reply", format!("get_peers with {n} known peers was answered with {o:?}")),
            }
        })
    });
    // peers in every state of use
    let sts = [Status::Active, Status::Unknown, Status::UnableToConnect, Status::ChokedForTooLong, Status::NoUsefulPieces];
    ctx.each("peer states", 36, move |i| {
        let sts = sts.clone();
        rt::run(Default::default(), async move {
            let (s, _us, mut m) = with_table(1, &[]).await?;
            let cl = clients(&s).await?;
            let mut peers = s.peers.clone();
            for x in [i % 6, i / 6] {
                if x < 5 {
                    let a = addr(90 + x as u8, 9090);
                    peers.return_batch_of_bad_peers_and_get_new_batch(&[(Peer::new(a), sts[x as usize].clone())], 0);
                    // peers that could not be reached are not worth telling
                    if x != 2 {
                        m.pool.insert(a);
                    }
                }
            }
            let mut r = 0;
            for _ in 0..2 {
                s.feed(&cl.us[1], &bencode::encode(&q_get(b"aa", &rid(2), &IH))).await;
                let mut want = vec![(1, m.get(b"aa", &IH))];
                r = settle_up(&cl.us, &mut want, "peers in different states of use")?;
            }
            Ok(r)
        })
    });
}


// ------------------------------------------------------------------ C21
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Own,
    OtherIp,
    Missing,
    Empty,
    Flip(usize, u8),
    Cut(usize),
    Long,
    /// issued by the previous run of this service to the same address
    PreviousRun,
    SameIpOtherPort,
    AllZero,
    Ip,
}
async fn announce(s: &Svc, u: &Udp, ih: &B, port: i128, token: Option<&[u8]>, extra: Option<i128>) -> Result<Vec<Got>, Fail> {
    let mut a = vec![(k("id"), bytes(&rid(7))), (k("info_hash"), bytes(ih)), (k("port"), int(port))];
    if let Some(t) = token {
        a.push((k("token"), bytes(t)));
    }
    if let Some(x) = extra {
        a.push((k("implied_port"), int(x)));
    }
    s.feed(u, &bencode::encode(&query("announce_peer", b"an", a))).await;
    recv(u)
}
/// Peers the service tells the probe for an info-hash.
async fn served(s: &Svc, ih: &B) -> Result<BTreeSet<A>, Fail> {
    s.probe.drain();
    s.feed(&s.probe, &bencode::encode(&q_get(b"gp", &rid(8), ih))).await;
    match recv(&s.probe)?.as_slice() {
        [Got::Reply { values, .. }] => Ok(values.clone().unwrap_or_default().into_iter().collect()),
        o => fail("no-reply", format!("get_peers was answered with {o:?}")),
    }
}
async fn check_announced(s: &Svc, want: &BTreeMap<B, BTreeSet<A>>, what: &str) -> R {
    for (ih, w) in want {
        let got = served(s, ih).await?;
        ensure_eq!(got, *w, "announced", "{what}: peers served for {}", if *ih == IH { "the torrent" } else { "another info-hash" });
    }
    ensure_eq!(s.pool(), want[&IH], "pool", "{what}: peers known for the torrent");
    Ok(h(want))
}
fn c21(ctx: &mut Ctx) {
    let quick = ctx.quick();
    ctx.assume("announces from 3 addresses on 2 IPs for 2 info-hashes, with every alteration of a token the bound lists");
    let fresh = || BTreeMap::from([(IH, BTreeSet::new()), (OTHER, BTreeSet::new())]);
    // histories: each step is a get_peers (which issues a token) or an announce
    let depth = ctx.by(3u32, 4);
    // client 0,1 (same IP), 2 ; action: ask torrent / ask other / announce with token of 0 / of 2 / none
    let ops = 3 * 6u64;
    ctx.each("announce histories", ops.pow(depth), move |i| {
        rt::run(Default::default(), async move {
            let s = Svc::start(None, &[]).await;
            let us = [Udp::new(addr(1, 1111)), Udp::new(addr(1, 1112)), Udp::new(addr(2, 2222))];
            let mut want = fresh();
            let mut issued: Vec<Option<Vec<u8>>> = vec![None; 3];
            let mut c = i;
            let mut seen = vec![];
            for step in 0..depth {
                let (who, op) = ((c % 3) as usize, c / 3 % 6);
                c /= ops;
                seen.push((who, op));
                let u = &us[who];
                match op {
                    0 | 1 => {
                        s.feed(u, &bencode::encode(&q_get(b"aa", &rid(7), if op == 0 { &IH } else { &OTHER }))).await;
                        match recv(u)?.as_slice() {
                            [Got::Reply { token: Some(t), .. }] => issued[who] = Some(t.clone()),
                            o => return fail("no-reply", format!("get_peers answered with {o:?}")),
                        }
                    }
                    2..=4 => {
                        let from = (op - 2) as usize;
                        let port = 5000 + step as u16;
                        let ih = if step % 2 == 0 { IH } else { OTHER };
                        let t = issued[from].clone().unwrap_or(b"unissued".to_vec());
                        let r = announce(&s, u, &ih, port as i128, Some(&t), None).await?;
                        let ok = issued[from].is_some() && us[from].addr.ip() == u.addr.ip();
                        if ok {
                            want.get_mut(&ih).unwrap().insert(SocketAddrV4::new(*u.addr.ip(), port));
                        }
                        let replied = r.iter().any(|g| matches!(g, Got::Reply { .. }));
                        ensure_eq!(replied, ok, "reply", "{seen:?}: announce answered as accepted");
                    }
                    _ => {
                        announce(&s, u, &IH, 999, None, None).await?;
                    }
                }
                check_announced(&s, &want, &format!("{seen:?}")).await?;
            }
            Ok(h((i, want)))
        })
    });
    // every alteration of a token
    let mut toks = vec![Tok::Own, Tok::OtherIp, Tok::Missing, Tok::Empty, Tok::Long, Tok::PreviousRun, Tok::SameIpOtherPort, Tok::AllZero, Tok::Ip];
    for i in 0..20 {
        toks.push(Tok::Cut(i));
        for c in 1..=255u8 {
            if !quick || c.is_power_of_two() || c == 0xff {
                toks.push(Tok::Flip(i, c));
            }
        }
    }
    let nt = toks.len() as u64;
    ctx.each("altered tokens", nt * 2, move |i| {
        let t = toks[(i / 2) as usize].clone();
        let ih = if i % 2 == 0 { IH } else { OTHER };
        let ask = |s: &Svc, u: &Udp| {
            u.drain();
            u.send(svc_addr(), &bencode::encode(&q_get(b"aa", &rid(7), &IH)));
            let _ = s;
        };
        let last = |u: &Udp| -> Result<Vec<u8>, Fail> {
            match recv(u)?.as_slice() {
                [Got::Reply { token: Some(t), .. }] => Ok(t.clone()),
                o => fail("no-reply", format!("get_peers answered with {o:?}")),
            }
        };
        let old = if t == Tok::PreviousRun {
            Some(rt::run(Default::default(), async move {
                let s = Svc::start(None, &[]).await;
                let u = Udp::new(addr(1, 1111));
                ask(&s, &u);
                rt::settle().await;
                last(&u)
            })?)
        } else {
            None
        };
        rt::run(Default::default(), async move {
            let s = Svc::start(None, &[]).await;
            let us = [Udp::new(addr(1, 1111)), Udp::new(addr(1, 1112)), Udp::new(addr(2, 2222))];
            let mut own = vec![];
            for u in &us {
                ask(&s, u);
                rt::settle().await;
                own.push(last(u)?);
            }
            let mut x = own[0].clone();
            let mut ok = false;
            let tok = match &t {
                Tok::Own => {
                    ok = true;
                    Some(x)
                }
                Tok::OtherIp => Some(own[2].clone()),
                Tok::Missing => None,
                Tok::Empty => Some(vec![]),
                Tok::Flip(p, c) => {
                    if *p >= x.len() {
                        return Ok(0);
                    }
                    x[*p] ^= c;
                    Some(x)
                }
                Tok::Cut(n) => {
                    if *n >= x.len() {
                        return Ok(0);
                    }
                    x.truncate(*n);
                    Some(x)
                }
                Tok::Long => {
                    x.push(0);
                    Some(x)
                }
                Tok::PreviousRun => old,
                Tok::SameIpOtherPort => {
                    ok = true;
                    Some(own[1].clone())
                }
                Tok::AllZero => Some(vec![0; x.len()]),
                Tok::Ip => Some(us[0].addr.ip().octets().to_vec()),
            };
            let mut want = fresh();
            let r = announce(&s, &us[0], &ih, 6881, tok.as_deref(), None).await?;
            if ok {
                want.get_mut(&ih).unwrap().insert(addr(1, 6881));
                ensure!(matches!(r.as_slice(), [Got::Reply { .. }]), "reply", "accepted announce answered with {r:?}");
            }
            check_announced(&s, &want, &format!("announce with token {t:?}")).await
        })
    });
    // many announces: each of them counts, also when many peers are known already
    let sizes: Vec<usize> = ctx.by(vec![1, 2, 64, 127, 128, 129, 130, 200], (1..=260).collect());
    ctx.each("many announced peers", sizes.len() as u64 * 3, move |i| {
        let n = sizes[(i / 3) as usize];
        let known = [0, 3, 128][(i % 3) as usize];
        rt::run(Default::default(), async move {
            let pool: Vec<A> = (0..known).map(|x| addr(50, 100 + x as u16)).collect();
            let (s, _us, _m) = with_table(1, &pool).await?;
            let cl = clients(&s).await?;
            let mut want: BTreeSet<A> = pool.iter().cloned().collect();
            for x in 0..n {
                let port = 2000 + x as u16;
                cl.us[0].drain();
                let r = announce(&s, &cl.us[0], &IH, port as i128, Some(&cl.tokens[0]), None).await?;
                ensure!(matches!(r.as_slice(), [Got::Reply { .. }]), "reply", "announce {x} of {n} answered with {r:?}");
                want.insert(SocketAddrV4::new(*cl.us[0].addr.ip(), port));
            }
            ensure_eq!(s.pool(), want, "pool", "peers known for the torrent after {n} announces with {known} known before");
            Ok(h((n, known)))
        })
    });
    // a token works for the address it was issued to and for none that is like it
    ctx.each("addresses", 5 * 46 * 2, move |i| {
        let a = [[10u8, 0, 0, 1], [192, 168, 255, 254], [1, 2, 3, 4], [223, 7, 128, 0], [93, 184, 93, 184]][(i % 5) as usize];
        let (kind, swap) = ((i / 5 % 46) as usize, i / 5 / 46 == 1);
        let mut b = a;
        match kind {
            0..=31 => b[kind / 8] ^= 1 << (kind % 8),
            32..=35 => b[kind - 32] = b[kind - 32].wrapping_add(1),
            36..=41 => {
                let (x, y) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][kind - 36];
                b.swap(x, y);
            }
            42 => b.reverse(),
            43 => b[3] = b[3].wrapping_sub(1),
            44 => b[0] = a[0] ^ 0x55,
            _ => b[3] ^= 0xff,
        }
        let (a, b) = if swap { (b, a) } else { (a, b) };
        let ok = |x: [u8; 4]| x[0] != 0 && x[0] != 127 && x[0] < 224 && x != [255; 4];
        if a == b || !ok(a) || !ok(b) {
            return Ok(0);
        }
        rt::run(Default::default(), async move {
            let s = Svc::start(None, &[]).await;
            let us = [a, b].map(|x| Udp::new(SocketAddrV4::new(x.into(), 6000)));
            us[0].send(svc_addr(), &bencode::encode(&q_get(b"aa", &rid(7), &IH)));
            rt::settle().await;
            let t = match recv(&us[0])?.as_slice() {
                [Got::Reply { token: Some(t), .. }] => t.clone(),
                o => return fail("no-reply", format!("get_peers answered with {o:?}")),
            };
            let mut want = fresh();
            announce(&s, &us[1], &IH, 6881, Some(&t), None).await?;
            check_announced(&s, &want, &format!("announce of {b:?} with the token of {a:?}")).await?;
            for u in &us {
                u.drain();
            }
            want.get_mut(&IH).unwrap().insert(SocketAddrV4::new(a.into(), 6882));
            announce(&s, &us[0], &IH, 6882, Some(&t), None).await?;
            check_announced(&s, &want, &format!("announce of {a:?} with its token")).await
        })
    });
    // a token is good for a while, whatever else is asked in between
    ctx.each("tokens in use", 5 * 4, move |i| {
        let n = [0u32, 10, 130, 520, 1100][(i % 5) as usize];
        let wait = [0u64, 30, 120, 280][(i / 5) as usize];
        rt::run(Default::default(), async move {
            let s = Svc::start(None, &[]).await;
            let cl = clients(&s).await?;
            let mut want = fresh();
            rt::pass(Duration::from_secs(wait / 2)).await;
            for x in 0..n {
                let q = match x % 3 {
                    0 => q_get(b"aa", &rid(9), if x % 2 == 0 { &IH } else { &OTHER }),
                    1 => query("ping", b"pp", vec![(k("id"), bytes(&rid(9)))]),
                    _ => query("find_node", b"ff", vec![(k("id"), bytes(&rid(9))), (k("target"), bytes(&rid(3)))]),
                };
                s.feed(&cl.us[1 + (x % 7 == 0) as usize], &bencode::encode(&q)).await;
            }
            rt::pass(Duration::from_secs(wait - wait / 2)).await;
            for u in &cl.us {
                u.drain();
            }
            want.get_mut(&IH).unwrap().insert(addr(1, 6881));
            announce(&s, &cl.us[0], &IH, 6881, Some(&cl.tokens[0]), None).await?;
            check_announced(&s, &want, &format!("announce {wait} s and {n} queries after the token was issued")).await
        })
    });
    // every kind of port
    let ports: Vec<i128> = vec![1, 2, 80, 255, 256, 1023, 6881, 32767, 32768, 65534, 65535];
    let np = ports.len() as u64;
    ctx.each("ports", np * 2 * 2, move |i| {
        let port = ports[(i % np) as usize];
        let ih = if i / np % 2 == 0 { IH } else { OTHER };
        let extra = if i / np / 2 == 0 { None } else { Some(0) };
        rt::run(Default::default(), async move {
            let s = Svc::start(None, &[]).await;
            let cl = clients(&s).await?;
            let mut want = fresh();
            want.get_mut(&ih).unwrap().insert(addr(1, port as u16));
            announce(&s, &cl.us[0], &ih, port, Some(&cl.tokens[0]), extra).await?;
            check_announced(&s, &want, &format!("announce of port {port}")).await
        })
    });
    ctx.explore("implied port", opts(), move |ch| {
        let c = ch.pick(3);
        rt::run(Default::default(), async move {
            let s = Svc::start(None, &[]).await;
            let cl = clients(&s).await?;
            announce(&s, &cl.us[c], &IH, 6881, Some(&cl.tokens[c]), Some(1)).await?;
            let got = s.pool();
            let port = SocketAddrV4::new(*cl.us[c].addr.ip(), 6881);
            // the one deviation on record: the announced port is taken although the sender's is implied
            if got == BTreeSet::from([port]) {
                return fail("implied-port-ignored", format!("an announce from {} with implied_port=1 and port 6881 made {port} known", cl.us[c].addr));
            }
            ensure_eq!(got, BTreeSet::from([cl.us[c].addr]), "implied-port", "peers known after an announce with implied port");
            Ok(h(c))
        })
    });
}

// ------------------------------------------------------------------ C22
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Ping,
    Find,
    Get,
    GetValues,
    Err,
}
const KINDS: [Kind; 5] = [Kind::Ping, Kind::Find, Kind::Get, Kind::GetValues, Kind::Err];
#[derive(Clone, Copy, Debug, PartialEq)]
enum From_ {
    Right,
    OtherPort,
    OtherHost,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum TidKind {
    Right,
    /// of another pending query (to another host)
    Foreign,
    Altered,
    Prefix,
    Longer,
    Empty,
}
struct Out {
    tid: Vec<u8>,
    host: usize,
    kind: Kind,
    open: bool,
}
/// A service with four pending queries: pings to hosts 1 and 2, find_node and get_peers to host 0.
async fn pending_four() -> Result<(Svc, Vec<Udp>, Vec<Out>), Fail> {
    let s = Svc::start(None, &[]).await;
    let us = hosts(4);
    s.join(&[(&us[0], rid(2))]).await?;
    rt::pass(Duration::from_millis(7500)).await;
    for x in [1, 2] {
        s.tx.send(us[x].addr).await.ok();
    }
    rt::settle().await;
    let mut v = vec![];
    for (x, u) in us.iter().enumerate() {
        for g in recv(u)? {
            match g {
                Got::Ping { tid, .. } => v.push(Out { tid, host: x, kind: Kind::Ping, open: true }),
                Got::Find { tid, .. } => v.push(Out { tid, host: x, kind: Kind::Find, open: true }),
                Got::Get { tid, .. } => v.push(Out { tid, host: x, kind: Kind::Get, open: true }),
                _ => (),
            }
        }
    }
    v.sort_by_key(|o| (o.host, o.kind as usize));
    // the table was searched twice; the first of these queries just stays open
    v.reverse();
    v.dedup_by_key(|o| (o.host, o.kind as usize));
    v.reverse();
    ensure_eq!(v.len(), 4, "no-query", "queries pending in the prepared service");
    let tids: BTreeSet<_> = v.iter().map(|o| o.tid.clone()).collect();
    ensure_eq!(tids.len(), 4, "tids", "distinct transaction ids of pending queries");
    Ok((s, us, v))
}
fn c22(ctx: &mut Ctx) {
    let quick = ctx.quick();
    ctx.assume("4 pending queries (2 pings, find_node, get_peers) to 3 hosts; an error from the right host leaves open whether the query may still be answered, so such histories are not continued with that query; an answer of another kind leaves the query open");
    let mut acts: Vec<(usize, Kind, From_, TidKind)> = vec![];
    for q in 0..4usize {
        for kd in KINDS {
            for f in [From_::Right, From_::OtherPort, From_::OtherHost] {
                for t in [TidKind::Right, TidKind::Foreign, TidKind::Altered, TidKind::Prefix, TidKind::Longer, TidKind::Empty] {
                    acts.push((q, kd, f, t));
                }
            }
        }
    }
    // a second dimension: which actions follow
    let first: Vec<_> = acts.clone();
    let small: Vec<_> = acts.iter().filter(|a| matches!(a.3, TidKind::Right) && (a.2 != From_::OtherPort || !quick)).cloned().collect();
    let depth3: bool = !quick;
    let n1 = first.len() as u64;
    let n2 = small.len() as u64;
    let n3 = if depth3 { n2 } else { 1 };
    ctx.each("response histories", n1 * n2 * n3, move |i| {
        let mut seq = vec![first[(i % n1) as usize], small[(i / n1 % n2) as usize]];
        if depth3 {
            seq.push(small[(i / n1 / n2) as usize]);
        }
        rt::run(Default::default(), async move {
            let (s, us, mut outs) = pending_four().await?;
            let mut done = vec![];
            let mut unsure = [false; 4];
            let mut table = BTreeSet::from([rid(2)]);
            let mut pool: BTreeSet<A> = BTreeSet::new();
            for (step, (q, kind, from, tk)) in seq.into_iter().enumerate() {
                if unsure[q] {
                    return Ok(1);
                }
                done.push((q, kind, from, tk));
                let o = &outs[q];
                let mut tid = o.tid.clone();
                match tk {
                    TidKind::Right => (),
                    TidKind::Foreign => tid = outs.iter().find(|x| x.host != o.host).unwrap().tid.clone(),
                    TidKind::Altered => tid[0] ^= 1,
                    TidKind::Prefix => {
                        tid.pop();
                    }
                    TidKind::Longer => tid.push(0),
                    TidKind::Empty => tid.clear(),
                }
                let other;
                let u = match from {
                    From_::Right => &us[o.host],
                    From_::OtherPort => {
                        other = Udp::new(SocketAddrV4::new(*us[o.host].addr.ip(), 1));
                        &other
                    }
                    From_::OtherHost => &us[3],
                };
                let id = rid(100 + step as u8);
                let new = Udp::new(addr(120 + step as u8, 1234));
                let val = addr(150 + step as u8, 4321);
                let nodes = [(rid(140 + step as u8), new.addr)];
                let d = match kind {
                    Kind::Ping => r_ping(&tid, &id),
                    Kind::Find => r_find(&tid, &id, &nodes),
                    Kind::Get => r_get_nodes(&tid, &id, b"tk", &nodes),
                    Kind::GetValues => r_get_values(&tid, &id, b"tk", &[val]),
                    Kind::Err => error(&tid),
                };
                let fits = o.kind == kind || (o.kind == Kind::Get && kind == Kind::GetValues);
                let counts = o.open && fits && from == From_::Right && tk == TidKind::Right;
                if o.open && kind == Kind::Err && from == From_::Right && tk == TidKind::Right {
                    unsure[q] = true;
                }
                for x in &us {
                    x.drain();
                }
                s.feed(u, &bencode::encode(&d)).await;
                if counts {
                    outs[q].open = false;
                    match kind {
                        Kind::Ping | Kind::Find => {
                            table.insert(id);
                        }
                        Kind::GetValues => {
                            pool.insert(val);
                        }
                        _ => (),
                    }
                }
                // a node that a counting answer names is queried, once
                let asked = recv(&new)?;
                let want = (counts && matches!(kind, Kind::Find | Kind::Get)) as usize;
                ensure_eq!(asked.len(), want, "effect", "{done:?}: queries to the node named in the response");
                for x in &us {
                    let g = recv(x)?;
                    ensure!(g.is_empty(), "effect", "{done:?}: the service sent {g:?}");
                }
                for st in 0..=step as u8 {
                    ensure_eq!(s.knows(&rid(100 + st)).await?, table.contains(&rid(100 + st)), "effect", "{done:?}: responder {st} in the routing table");
                    ensure!(!s.knows(&rid(140 + st)).await?, "effect", "{done:?}: a node merely named is in the routing table");
                }
                ensure!(s.knows(&rid(2)).await?, "effect", "{done:?}: the good node is gone");
                ensure_eq!(s.pool(), pool, "effect", "{done:?}: known peers");
            }
            Ok(h((format!("{table:?}"), pool)))
        })
    });
    // any number of queries may be open: the answer to each of them counts
    ctx.each("many open queries", 6 * 3, move |i| {
        let n = [1usize, 64, 255, 310, 1030, 4200][(i % 6) as usize];
        let place = [0, n / 2, n][(i / 6) as usize];
        rt::run(Default::default(), async move {
            let s = Svc::start(None, &[]).await;
            let u = Udp::new(addr(9, 999));
            for x in 0..=n {
                let a = if x == place { u.addr } else { SocketAddrV4::new(Ipv4Addr::new(10, 77, (x >> 8) as u8, x as u8), 4000) };
                s.tx.send(a).await.ok();
                if x % 8 == 0 {
                    rt::settle().await;
                }
            }
            rt::settle().await;
            let tids: Vec<Vec<u8>> = recv(&u)?.into_iter().filter_map(|g| match g {
                Got::Ping { tid, .. } => Some(tid),
                _ => None,
            }).collect();
            ensure_eq!(tids.len(), 1, "no-query", "pings to a host among {n} others");
            s.feed(&u, &bencode::encode(&r_ping(&tids[0], &rid(100)))).await;
            ensure!(s.knows(&rid(100)).await?, "effect", "an answer in time, as one of {} open queries, did not count", n + 1);
            Ok(h((n, place)))
        })
    });
    // repeated answers, the same datagram again and again, also much later
    ctx.each("repeated answers", 4 * 3 * 2, move |i| {
        let (q, pause, kd) = ((i % 4) as usize, i / 4 % 3, i / 12);
        rt::run(Default::default(), async move {
            let (s, us, outs) = pending_four().await?;
            let o = &outs[q];
            let mk = |n: u8| match (o.kind, kd) {
                (Kind::Ping, _) => r_ping(&o.tid, &rid(100 + n)),
                (Kind::Find, _) => r_find(&o.tid, &rid(100 + n), &[(rid(140 + n), addr(120 + n, 1234))]),
                (_, 0) => r_get_nodes(&o.tid, &rid(100 + n), b"tk", &[(rid(140 + n), addr(120 + n, 1234))]),
                _ => r_get_values(&o.tid, &rid(100 + n), b"tk", &[addr(150 + n, 4321)]),
            };
            let news: Vec<Udp> = (0..4).map(|n| Udp::new(addr(120 + n, 1234))).collect();
            for n in 0..4u8 {
                s.feed(&us[o.host], &bencode::encode(&mk(n))).await;
                rt::pass(Duration::from_millis([0, 700, 1400][pause as usize])).await;
            }
            for n in 1..4u8 {
                ensure!(!s.knows(&rid(100 + n)).await?, "repeat", "repeated answer {n} to a {:?} query entered its sender", o.kind);
                ensure!(!s.pool().contains(&addr(150 + n, 4321)), "repeat", "repeated answer {n} added a peer");
                let g = recv(&news[n as usize])?;
                ensure!(g.is_empty(), "repeat", "repeated answer {n} made the service send {g:?}");
            }
            Ok(h(i))
        })
    });
}


// ------------------------------------------------------------------ C23
/// How a simulated node answers get_peers.
#[derive(Clone, Debug, PartialEq)]
enum Beh {
    Silent,
    Values,
    Nodes(Vec<usize>),
    /// a peer and nodes in one answer
    Both(Vec<usize>),
    /// answers the first query only
    OnceNodes(Vec<usize>),
    /// a peer first, nodes in later rounds
    ThenNodes(Vec<usize>),
    /// nodes first, a peer in later rounds
    ThenValues(Vec<usize>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum When {
    AtOnce,
    /// two seconds after the query: still within the round
    Slow,
    /// after the round has ended
    Late,
}
struct Walk {
    behs: Vec<Beh>,
    when: Vec<When>,
    rounds: usize,
}
struct Pending {
    at: Instant,
    host: usize,
    tid: Vec<u8>,
}
async fn walk(w: &Walk, ch: Option<&Ch>) -> R {
    let n = w.behs.len();
    let s = Svc::start(None, &[]).await;
    let us = hosts(n);
    let ids: Vec<B> = (0..n)
        .map(|x| {
            let mut id = IH;
            id[3 + x % 5] ^= 0x10 << (x % 3);
            id[19] ^= x as u8;
            id
        })
        .collect();
    s.join(&[(&us[0], ids[0])]).await?;
    let start = Instant::now();
    let what = format!("{:?} {:?}", w.behs, w.when);
    let (mut round, mut announces_round) = (0usize, 0usize);
    let mut pend: Vec<Pending> = vec![];
    let mut named: BTreeMap<usize, Instant> = BTreeMap::from([(0, start)]);
    let mut asked_in: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut asked: Vec<usize> = vec![0; n];
    let mut tokens: Vec<Vec<Vec<u8>>> = vec![vec![]; n];
    let mut values: Vec<(usize, A)> = vec![]; // round in which they were sent
    let mut announced: BTreeMap<usize, usize> = BTreeMap::new();
    let mut log = vec![];
    while round < w.rounds || announces_round < w.rounds || !pend.is_empty() {
        ensure!(start.elapsed() < Duration::from_secs(15 * w.rounds as u64 + 30), "no-round", "{what}: after {:?} there were {round} search rounds, {announces_round} announcements", start.elapsed());
        let mut got = vec![];
        for (x, u) in us.iter().enumerate() {
            for g in recv(u)? {
                got.push((x, g));
            }
        }
        if got.iter().any(|(x, g)| *x == 0 && matches!(g, Got::Get { .. })) {
            round += 1;
        }
        let mut end = false;
        announced.clear();
        for (x, g) in got {
            match g {
                Got::Get { tid, id, ih } => {
                    ensure!(id == s.own && ih == IH, "query", "{what}: get_peers with id {id:?} info-hash {ih:?}");
                    ensure!(named.contains_key(&x), "stranger", "{what}: node {x} was asked though no node named it");
                    asked[x] += 1;
                    let c = asked_in.entry((round, x)).or_default();
                    *c += 1;
                    ensure!(*c == 1, "asked-twice", "{what}: node {x} was asked twice in round {round}");
                    log.push((round, x, 0));
                    let answers = match &w.behs[x] {
                        Beh::Silent => false,
                        Beh::OnceNodes(_) => asked[x] == 1,
                        _ => true,
                    };
                    if answers {
                        let d = match w.when[x] {
                            When::AtOnce => Duration::ZERO,
                            When::Slow => Duration::from_secs(2),
                            When::Late => Duration::from_millis(3500 + 250 * x as u64),
                        };
                        pend.push(Pending { at: Instant::now() + d, host: x, tid });
                    }
                }
                Got::Announce { id, ih, port, token, implied, .. } => {
                    end = true;
                    log.push((round, x, 1));
                    ensure!(id == s.own && ih == IH && port == TCP_PORT as i128 && !implied, "announce", "{what}: announce_peer to node {x} with id {id:?} info-hash {ih:?} port {port} implied {implied}");
                    match tokens[x].last() {
                        None => return fail("announce-unasked", format!("{what}: announce to node {x}, which never answered")),
                        Some(t) => ensure!(token == *t, "token", "{what}: announce to node {x} with token {:?}, it sent {:?} last", String::from_utf8_lossy(&token), String::from_utf8_lossy(t)),
                    }
                    *announced.entry(x).or_default() += 1;
                }
                Got::Find { .. } | Got::Ping { .. } => (),
                o => return fail("query", format!("{what}: node {x} got {o:?}")),
            }
        }
        if end {
            announces_round = round;
            for x in 0..n {
                let want = (!tokens[x].is_empty()) as usize;
                ensure_eq!(announced.get(&x).cloned().unwrap_or(0), want, "announce-missing", "{what}: announcements to node {x} at the end of round {round}");
            }
        }
        // answers that are due, in an order the explorer chooses
        let due: Vec<usize> = (0..pend.len()).filter(|p| pend[*p].at <= Instant::now()).collect();
        if due.is_empty() {
            // a round without any answer at all has no announcement
            if round > announces_round && tokens.iter().all(|t| t.is_empty()) && pend.is_empty() {
                rt::pass(Duration::from_millis(3100)).await;
                announces_round = round;
            } else {
                rt::pass(Duration::from_millis(249)).await;
            }
            continue;
        }
        let p = pend.remove(due[ch.map(|c| c.pick(due.len())).unwrap_or(0)]);
        let token = format!("t{}.{}", p.host, tokens[p.host].len()).into_bytes();
        let beh = match &w.behs[p.host] {
            Beh::ThenNodes(_) if tokens[p.host].is_empty() => &Beh::Values,
            Beh::ThenValues(_) if !tokens[p.host].is_empty() => &Beh::Values,
            b => b,
        };
        let d = match beh {
            Beh::Values => {
                let v = addr(100 + p.host as u8, 1000 + tokens[p.host].len() as u16);
                values.push((announces_round + 1, v));
                r_get_values(&p.tid, &ids[p.host], &token, &[v])
            }
            Beh::Nodes(ns) | Beh::OnceNodes(ns) | Beh::Both(ns) | Beh::ThenNodes(ns) | Beh::ThenValues(ns) => {
                let l: Vec<(B, A)> = ns.iter().map(|x| (ids[*x], us[*x].addr)).collect();
                for x in ns {
                    named.entry(*x).or_insert(Instant::now());
                }
                if let Beh::Both(_) = w.behs[p.host] {
                    let v = addr(100 + p.host as u8, 1000 + tokens[p.host].len() as u16);
                    values.push((announces_round + 1, v));
                    r_get_both(&p.tid, &ids[p.host], &token, &[v], &l)
                } else {
                    r_get_nodes(&p.tid, &ids[p.host], &token, &l)
                }
            }
            Beh::Silent => unreachable!(),
        };
        tokens[p.host].push(token);
        s.feed(&us[p.host], &bencode::encode(&d)).await;
        mc::no_panic()?;
    }
    let pool = s.pool();
    for (r, v) in values {
        ensure!(pool.contains(&v) || r > announces_round, "value-lost", "{what}: peer {v} sent in round {r} is not in the pool after round {announces_round}");
    }
    for (x, t) in named {
        // named before the last round ended: must have been asked
        ensure!(asked[x] > 0 || t.elapsed() < Duration::from_secs(12), "not-followed", "{what}: node {x} was named {:?} ago and never asked", t.elapsed());
    }
    Ok(h((log, pool)))
}
fn c23(ctx: &mut Ctx) {
    let quick = ctx.quick();
    ctx.assume("3-4 simulated nodes (one good node in the routing table at the start), two search rounds; at most 511 tracked nodes; answers of up to 2 KiB");
    let subsets = |n: usize, full: bool| -> Vec<Beh> {
        let mut v = vec![Beh::Silent, Beh::Values];
        for m in 0..1usize << n {
            if full || m == 0 || m == (1 << n) - 1 || m.count_ones() == 1 {
                v.push(Beh::Nodes((0..n).filter(|x| m >> x & 1 == 1).collect()));
            }
        }
        v.push(Beh::OnceNodes((0..n).collect()));
        v.push(Beh::Both((0..n).collect()));
        if n == 2 || full {
            v.push(Beh::ThenNodes((0..n).collect()));
            v.push(Beh::ThenValues((0..n).collect()));
        }
        v.push(Beh::Both(vec![n - 1]));
        v
    };
    let whens = [When::AtOnce, When::Slow, When::Late];
    let run = |name: &str, n: usize, full: bool, ws: usize, dev: u32, ctx: &mut Ctx| {
        let bs = subsets(n, full);
        ctx.explore(name, opts().dev(dev), move |ch| {
            let behs: Vec<Beh> = (0..n).map(|_| bs[ch.pick(bs.len())].clone()).collect();
            // the time of an answer that is not given does not matter
            let when: Vec<When> = behs.iter().map(|b| if *b == Beh::Silent { When::AtOnce } else { whens[ch.pick(ws)] }).collect();
            ch.note(|| format!("{behs:?} {when:?}"));
            let c2 = ch.clone();
            let o = rt::RtOpts { sched: dev > 0, select: dev > 0, preempt: dev > 0, ..Default::default() };
            rt::run(o, async move { walk(&Walk { behs, when, rounds: 2 }, Some(&c2)).await })
        });
    };
    run("topologies of 2", 2, true, 3, 0, ctx);
    if quick {
        run("topologies of 3", 3, false, 2, 0, ctx);
        run("schedules", 2, false, 1, 1, ctx);
    } else {
        run("topologies of 3", 3, true, 3, 0, ctx);
        run("topologies of 4", 4, false, 1, 0, ctx);
        run("schedules", 2, true, 2, 1, ctx);
    }
    // many nodes: every one is followed, none asked twice
    let sizes: Vec<usize> = ctx.by(vec![5, 17, 40], vec![5, 8, 9, 16, 17, 40, 80]);
    ctx.each("many nodes", sizes.len() as u64 * 6, move |i| {
        // the search goes on alike when plenty of peers are known already
        let rich = if i % 2 == 1 { 600 } else { 0 };
        let i = i / 2;
        let n = sizes[(i / 3) as usize];
        rt::run(Default::default(), async move {
            let known: Vec<A> = (0..rich).map(|p| addr(60 + (p / 200) as u8, 9000 + p as u16)).collect();
            let s = Svc::start(None, &known).await;
            let us = hosts(n);
            let ids: Vec<B> = (0..n as u8).map(rid).collect();
            s.join(&[(&us[0], ids[0])]).await?;
            let mut asked = vec![0; n];
            let mut ann = vec![vec![]; n];
            for _ in 0..150 {
                rt::pass(Duration::from_millis(100)).await;
                for x in 0..n {
                    for g in recv(&us[x])? {
                        match g {
                            Got::Get { tid, .. } => {
                                asked[x] += 1;
                                let l: Vec<(B, A)> = match i % 3 {
                                    // all at once, a chain, everyone names everyone
                                    0 if x == 0 => (0..n).map(|y| (ids[y], us[y].addr)).collect(),
                                    1 if x + 1 < n => vec![(ids[x + 1], us[x + 1].addr)],
                                    2 => (0..n).map(|y| (ids[y], us[y].addr)).collect(),
                                    _ => vec![],
                                };
                                us[x].send(svc_addr(), &bencode::encode(&r_get_nodes(&tid, &ids[x], format!("tok{x}").as_bytes(), &l)));
                            }
                            Got::Announce { token, .. } => ann[x].push(token),
                            _ => (),
                        }
                    }
                }
                if i % 3 != 1 && ann.iter().any(|a| !a.is_empty()) {
                    break;
                }
            }
            if i % 3 != 1 || n <= 30 {
                for x in 0..n {
                    ensure_eq!(asked[x], 1, "asked", "get_peers queries to node {x} of {n} in the first round ({rich} peers known before)");
                }
                let k = ann.iter().filter(|a| !a.is_empty()).count();
                ensure!(k >= n.min(8), "announce-missing", "only {k} of {n} nodes that answered got an announcement");
            }
            for x in 0..n {
                for t in &ann[x] {
                    ensure!(*t == format!("tok{x}").into_bytes(), "token", "announce to node {x} carries {:?}", String::from_utf8_lossy(t));
                }
                ensure!(ann[x].len() <= 1, "announce-twice", "node {x} got {} announcements in one round", ann[x].len());
            }
            Ok(h((asked, ann)))
        })
    });
    // ids at every distance from the info-hash, the info-hash itself among them
    ctx.each("special ids", 164 * 3, move |i| {
        let (b, way) = ((i / 3) as usize, i % 3);
        rt::run(Default::default(), async move {
            let s = Svc::start(None, &[]).await;
            let n = 4;
            let us = hosts(n);
            let mut ids: Vec<B> = (0..n as u8).map(rid).collect();
            let x = (way as usize).min(2);
            ids[x] = match b {
                0..=159 => {
                    let mut id = IH;
                    id[b / 8] ^= 0x80 >> (b % 8);
                    id
                }
                160 => IH,
                161 => [0; 20],
                162 => [255; 20],
                _ => {
                    let mut id = s.own;
                    id[19] ^= 1;
                    id
                }
            };
            s.join(&[(&us[0], ids[0])]).await?;
            let mut asked = vec![0; n];
            let mut announced = vec![0; n];
            for _ in 0..150 {
                rt::pass(Duration::from_millis(100)).await;
                for x in 0..n {
                    for g in recv(&us[x])? {
                        match g {
                            Got::Get { tid, .. } => {
                                asked[x] += 1;
                                // the first names the second and third, the second the fourth
                                let l: Vec<(B, A)> = match x {
                                    0 => vec![(ids[1], us[1].addr), (ids[2], us[2].addr)],
                                    1 => vec![(ids[3], us[3].addr)],
                                    _ => vec![],
                                };
                                us[x].send(svc_addr(), &bencode::encode(&r_get_nodes(&tid, &ids[x], format!("tok{x}").as_bytes(), &l)));
                            }
                            Got::Announce { token, .. } => {
                                ensure!(token == format!("tok{x}").into_bytes(), "token", "announce to node {x} carries {:?}", String::from_utf8_lossy(&token));
                                announced[x] += 1;
                            }
                            _ => (),
                        }
                    }
                }
                if announced.iter().any(|k| *k > 0) {
                    break;
                }
            }
            ensure_eq!(asked, vec![1; n], "asked", "get_peers queries of the first round, the id of node {x} is {:02x?}", ids[x]);
            ensure_eq!(announced, vec![1; n], "announce-missing", "announcements, the id of node {x} is {:02x?}", ids[x]);
            mc::no_panic()?;
            Ok(i)
        })
    });
    // answers full of peers, and nodes that are named under several ids or addresses
    let counts: Vec<usize> = ctx.by(vec![0, 1, 8, 49, 50, 51, 63, 64, 65, 100, 101, 128, 129, 200, 230], (0..=230).collect());
    ctx.each("many peers in an answer", counts.len() as u64 * 2 * 3, move |i| {
        let (k, both, same) = (counts[(i / 6) as usize], i % 2 == 1, i / 2 % 3);
        rt::run(Default::default(), async move {
            let s = Svc::start(None, &[]).await;
            let n = 8;
            let us = hosts(n);
            let ids: Vec<B> = (0..n as u8).map(rid).collect();
            s.join(&[(&us[0], ids[0])]).await?;
            let mut asked = vec![0; n];
            let mut sent = BTreeSet::new();
            let mut announced = BTreeSet::new();
            for _ in 0..150 {
                rt::pass(Duration::from_millis(100)).await;
                for x in 0..n {
                    for g in recv(&us[x])? {
                        match g {
                            Got::Get { tid, .. } => {
                                asked[x] += 1;
                                let mut l: Vec<(B, A)> = match x {
                                    0 => (1..4).map(|y| (ids[y], us[y].addr)).collect(),
                                    1 => vec![(ids[4], us[4].addr)],
                                    _ => vec![],
                                };
                                if same > 0 && x <= 1 {
                                    // the id of a node at the address of another one, before or after
                                    let y = if x == 0 { 5 } else { 6 };
                                    l.insert(if same == 1 { 0 } else { l.len() }, (l[0].0, us[y].addr));
                                    // and an address under a second id
                                    l.push((ids[7], us[3].addr));
                                }
                                let tk = format!("tok{x}").into_bytes();
                                let v: Vec<A> = (0..k).map(|p| addr(100 + x as u8, 1000 + p as u16)).collect();
                                let d = match x {
                                    0 | 1 if both => r_get_both(&tid, &ids[x], &tk, &v, &l),
                                    0 | 1 => r_get_nodes(&tid, &ids[x], &tk, &l),
                                    _ => r_get_values(&tid, &ids[x], &tk, &v),
                                };
                                if both || x > 1 {
                                    sent.extend(v);
                                }
                                us[x].send(svc_addr(), &bencode::encode(&d));
                            }
                            Got::Announce { token, .. } => {
                                ensure!(token == format!("tok{x}").into_bytes(), "token", "announce to node {x} carries {:?}", String::from_utf8_lossy(&token));
                                announced.insert(x);
                            }
                            _ => (),
                        }
                    }
                }
                if !announced.is_empty() {
                    break;
                }
            }
            let what = format!("{k} peers per answer, with nodes: {both}, doubled ids: {same}");
            let all = if same > 0 { 7 } else { 5 };
            for x in 0..n {
                ensure_eq!(asked[x], (x < all) as usize, "asked", "{what}: get_peers queries to node {x}");
                ensure_eq!(announced.contains(&x), x < all, "announce", "{what}: announced to node {x} ({announced:?})");
            }
            let pool = s.pool();
            ensure!(sent.is_subset(&pool), "value-lost", "{what}: {} of {} peers sent are not in the pool", sent.difference(&pool).count(), sent.len());
            ensure!(pool.is_subset(&sent), "invented", "{what}: {} peers in the pool nobody sent", pool.difference(&sent).count());
            Ok(h((asked, pool.len())))
        })
    });
    // more nodes answer than are announced to: those left out are farther from the info-hash
    let sizes: Vec<usize> = ctx.by(vec![3, 16, 17, 18, 33, 64, 129, 300, 450], (2..70).chain([127, 128, 129, 200, 255, 256, 300, 400, 500]).collect());
    let over: Vec<usize> = ctx.by(vec![520, 700], vec![511, 512, 513, 520, 700, 1100]);
    let all: Vec<usize> = sizes.into_iter().chain(over).collect();
    ctx.each("the closest of many", all.len() as u64 * 4 * 4 * 2, move |i| {
        let n = all[(i / 32) as usize];
        let (order, mask, silent) = (i % 4, i / 4 % 4, i / 16 % 2 == 1);
        rt::run(Default::default(), async move {
            let s = Svc::start(None, &[]).await;
            let us: Vec<Udp> = (0..n).map(|x| Udp::new(addr(10 + (x / 200) as u8, 5000 + x as u16))).collect();
            // rank by distance, met in ascending, descending or mixed order
            let rank: Vec<usize> = (0..n)
                .map(|x| match order {
                    0 => x,
                    1 => n - 1 - x,
                    2 => x / 2 + (x % 2) * n.div_ceil(2),
                    _ if (x ^ 1) < n => n - 1 - (x ^ 1),
                    _ => n - 1 - x,
                })
                .collect();
            let mut used = BTreeSet::new();
            let ids: Vec<B> = rank
                .iter()
                .map(|r| {
                    let mut id = IH;
                    let d = (*r as u32 + 1) * 3;
                    // the deciding bits lie in the first, a middle or the last bytes
                    let at = [0usize, 9, 16, 3][(order % 4) as usize];
                    for (q, y) in d.to_be_bytes().iter().enumerate() {
                        id[at + q] ^= y;
                    }
                    for y in id.iter_mut().skip(at + 4) {
                        *y ^= 0xff - (*r % 251) as u8;
                    }
                    id
                })
                .collect();
            ensure!(ids.iter().all(|x| used.insert(*x)), "harness", "ids are not distinct");
            s.join(&[(&us[0], ids[0])]).await?;
            let values = |x: usize| match mask {
                0 => false,
                1 => rank[x] % 2 == 0,
                2 => rank[x] * 2 < n,
                _ => rank[x] * 2 >= n,
            };
            let quiet = |x: usize| silent && x > 0 && rank[x] % 3 == 1;
            let mut answered = BTreeSet::new();
            let mut ann: BTreeMap<usize, usize> = BTreeMap::new();
            let mut next = 1;
            let mut asked = vec![0; n];
            for _ in 0..400 {
                rt::pass(Duration::from_millis(100)).await;
                for x in 0..n {
                    for g in recv(&us[x])? {
                        asked[x] += (ann.is_empty() && matches!(g, Got::Get { .. })) as usize;
                        match g {
                            Got::Get { tid, .. } if !quiet(x) && ann.is_empty() => {
                                let tk = format!("tok{x}").into_bytes();
                                let d = if values(x) && x > 0 && next >= n {
                                    r_get_values(&tid, &ids[x], &tk, &[addr(100, 1000 + x as u16)])
                                } else {
                                    let to = (next + 40).min(n);
                                    let l: Vec<(B, A)> = (next..to).map(|y| (ids[y], us[y].addr)).collect();
                                    next = to;
                                    r_get_nodes(&tid, &ids[x], &tk, &l)
                                };
                                answered.insert((x, values(x) && bencode::encode(&d).windows(6).any(|w| w == b"values")));
                                us[x].send(svc_addr(), &bencode::encode(&d));
                            }
                            Got::Announce { token, .. } => {
                                ensure!(token == format!("tok{x}").into_bytes(), "token", "announce to node {x} carries {:?}", String::from_utf8_lossy(&token));
                                *ann.entry(x).or_default() += 1;
                            }
                            _ => (),
                        }
                    }
                }
                if !ann.is_empty() {
                    break;
                }
            }
            let what = format!("{n} nodes, order {order}, values {mask}, some silent: {silent}");
            ensure!(ann.values().all(|c| *c == 1), "announce-twice", "{what}: announcements per node {ann:?}");
            ensure!(ann.keys().all(|x| answered.iter().any(|a| a.0 == *x)), "announce-unasked", "{what}: announced to a node that never answered");
            ensure!(ann.len() >= answered.len().min(8), "announce-missing", "{what}: {} of {} nodes that answered got an announcement", ann.len(), answered.len());
            if n < 512 {
                if let Some(x) = (0..next).find(|x| asked[*x] != 1) {
                    return fail("asked", format!("{what}: {} get_peers queries to node {x} in the first round", asked[x]));
                }
                for kind in [false, true] {
                    let of = |told: bool| answered.iter().filter(|a| a.1 == kind && ann.contains_key(&a.0) == told).map(|a| xor(&ids[a.0], &IH)).collect::<Vec<_>>();
                    if let (Some(far), Some(near)) = (of(true).iter().max(), of(false).iter().min()) {
                        ensure!(far < near, "not-the-closest", "{what}: announced to a node at distance {far:02x?}, but not to one at {near:02x?} that answered alike (with peers: {kind})");
                    }
                }
            }
            // the search goes on
            let mut again = 0;
            for _ in 0..30 {
                rt::pass(Duration::from_secs(1)).await;
                for u in &us {
                    again += recv(u)?.iter().filter(|g| matches!(g, Got::Get { .. })).count();
                }
            }
            ensure!(again > 0, "no-round", "{what}: no search round in the 30 s after the first");
            Ok(h((ann.len(), answered.len())))
        })
    });
}

// ------------------------------------------------------------------ C24
fn first_diff(a: &B, c: &B) -> usize {
    (0..160).find(|i| (a[i / 8] ^ c[i / 8]) >> (7 - i % 8) & 1 == 1).unwrap_or(160)
}
fn refresh_times(until: f64) -> Vec<f64> {
    let (mut t, mut v, mut n) = (0.0, vec![], 0);
    loop {
        t += f64::min(3.0 + 0.04 * (n as f64).powi(3), 200.0);
        if t > until {
            return v;
        }
        v.push(t);
        n += 1;
    }
}
fn c24(ctx: &mut Ctx) {
    let quick = ctx.quick();
    ctx.assume("virtual time; saved tables of up to 12 nodes; traffic patterns with periods of 0.7 to 2.9 s; intervals as configured in the tree's initial design: 3 s, growing by 0.04 k^3, at most 200 s");
    // addresses learned from peers: every one is asked, whoever is in the table already
    let bursts: Vec<usize> = ctx.by(vec![1, 2, 9, 70], vec![1, 2, 9, 33, 70, 200]);
    ctx.each("learned from peers", bursts.len() as u64 * 4 * 5, move |i| {
        let (n, known, way) = (bursts[(i / 20) as usize], [0usize, 1, 8, 12][(i / 5 % 4) as usize], i % 5);
        rt::run(rt::RtOpts { poll_limit: 2_000_000, ..Default::default() }, async move {
            let s = Svc::start(None, &[]).await;
            let old = hosts(known);
            for (x, u) in old.iter().enumerate() {
                s.join(&[(u, rid(x as u8 + 1))]).await?;
            }
            // where the new ones are: elsewhere, at the IP of a known one, at one IP, all the same one, a known one
            let us: Vec<Udp> = (0..if way >= 3 { 1 } else { n })
                .map(|k| {
                    Udp::new(match way {
                        0 => addr(100 + k as u8 / 4, 2000 + k as u16),
                        1 if known > 0 => A::new(*old[0].addr.ip(), 2000 + k as u16),
                        4 if known > 0 => return Udp::new(addr(99, 999)),
                        _ => addr(90, 2000 + k as u16),
                    })
                })
                .collect();
            let to: Vec<A> = match way {
                4 if known > 0 => vec![old[0].addr],
                3 | 4 => vec![us[0].addr],
                _ => us.iter().map(|u| u.addr).collect(),
            };
            for u in &old {
                u.drain();
            }
            for a in to {
                s.tx.send(a).await.ok();
            }
            for _ in 0..40 {
                rt::settle().await;
            }
            if way == 4 && known > 0 {
                let k = recv(&old[0])?.iter().filter(|g| matches!(g, Got::Ping { .. })).count();
                ensure!(k >= 1, "no-ping", "no ping to a known node learned from a peer again, {known} known");
                return Ok(i);
            }
            for (k, u) in us.iter().enumerate() {
                let mut asked = 0;
                for g in recv(u)? {
                    if let Got::Ping { tid, .. } = g {
                        asked += 1;
                        let mut id = rid(60);
                        id[0] ^= 0x80;
                        id[1] = k as u8;
                        s.feed(u, &bencode::encode(&r_ping(&tid, &id))).await;
                    }
                }
                ensure!(asked == 1, "no-ping", "{asked} pings to address {k} ({}) of {n} learned from peers, {known} nodes known", u.addr);
            }
            let mut id = rid(60);
            id[0] ^= 0x80;
            id[1] = 0;
            ensure!(known >= 8 || s.knows(&id).await?, "not-learned", "a node learned from a peer that answered is not in the table, {known} nodes known");
            s.alive(|| format!("{n} addresses learned from peers")).await?;
            Ok(h((i, n)))
        })
    });
    // the interval itself
    fn f0(_: f64) -> f64 {
        1.0
    }
    fn f1(x: f64) -> f64 {
        0.5 + x
    }
    fn f2(x: f64) -> f64 {
        3.0 + 0.04 * x.powf(3.0)
    }
    fn f3(x: f64) -> f64 {
        20.0 + x
    }
    let ticks = ctx.by(3, 5);
    ctx.explore("interval", opts(), move |ch| {
        let (f, max): (fn(f64) -> f64, f64) = ([f0, f1, f2, f3][ch.pick(4)], [200.0, 2.0, 0.25, 21.0][ch.pick(4)]);
        let c2 = ch.clone();
        rt::run(Default::default(), async move {
            let mut iv = CappedGrowingInterval::new(max, f);
            let warm = [0, 5, 40][c2.pick(3)];
            let mut last = Instant::now();
            let mut seen = vec![];
            for n in 0..warm + ticks {
                let want = f64::min(f(n as f64), max);
                if n >= warm {
                    // something else happens first: the tick is abandoned and taken up again
                    for _ in 0..2 {
                        let part = [0.0, 0.0, 0.4, 0.95][c2.pick(4)];
                        let room = want - last.elapsed().as_secs_f64();
                        if part > 0.0 && room * (1.0 - part) > 0.004 {
                            let left = want - last.elapsed().as_secs_f64();
                            let r = tokio::time::timeout(Duration::from_secs_f64(left * part), iv.tick()).await;
                            ensure!(r.is_err(), "early", "tick {n} after {:?}, due after {want} s", last.elapsed());
                        } else {
                            break;
                        }
                    }
                }
                let left = want - last.elapsed().as_secs_f64();
                let r = tokio::time::timeout(Duration::from_secs_f64(left + 0.005), iv.tick()).await;
                let e = last.elapsed().as_secs_f64();
                ensure!(r.is_ok(), "late", "tick {n} has not come after {e} s, due after {want} s");
                ensure!((e - want).abs() < 0.006, "interval", "tick {n} came after {e} s, expected {want} s");
                last = Instant::now();
                seen.push((want * 1000.0) as u64);
            }
            Ok(h(seen))
        })
    });
    // the service under traffic
    let spans: Vec<u64> = ctx.by(vec![40, 1500], vec![40, 1500, 4000]);
    let shapes: Vec<Vec<usize>> = vec![vec![], vec![1], vec![1, 1, 2], vec![4, 3, 1, 1, 0, 1], vec![8, 3, 0, 1], vec![1, 8, 0, 2, 1], vec![8, 8, 8, 8, 8, 8, 3], vec![8, 8, 8, 5, 8, 8, 8, 8, 8, 8, 8, 1], vec![8, 8, 8, 8, 8, 8, 8, 8, 4, 4]];
    let ns = shapes.len();
    let nsp = spans.len();
    ctx.explore("maintenance", opts(), move |ch| {
        let shape = shapes[ch.pick(ns)].clone();
        let span = spans[ch.pick(nsp)];
        let traffic = ch.pick(5);
        // 0: all answer, 1: the first saved node is silent, 2: every node is silent, 3: the first answers were lost,
        // 4: no answers for so long that every node is given up
        let silent = ch.pick(if span > 1000 { 5 } else { 4 });
        let answers = move |x: usize, t: f64| match silent {
            0 => true,
            1 => x > 0,
            2 => false,
            3 => t > 5.0,
            _ => t < 20.0 || t > 1150.0,
        };
        ch.note(|| format!("shape {shape:?} span {span} traffic {traffic} silent {silent}"));
        rt::run(Default::default(), async move {
            // the saved table
            let _ = home();
            let own = b(RoutingTable::new().await.own_id());
            let _ = own;
            let mut t = RoutingTable::new().await;
            let own = b(t.own_id());
            let mut saved: Vec<(B, A)> = vec![];
            for (fd, c) in shape.iter().enumerate() {
                for x in 0..*c {
                    let mut id = own;
                    id[fd / 8] ^= 0x80 >> (fd % 8);
                    id[10] ^= x as u8 + 1;
                    let n = saved.len() as u8;
                    saved.push((id, addr(10 + n, 5000 + n as u16)));
                }
            }
            for (id, a) in &saved {
                t.touch_node(ID::new(*id), *a);
            }
            t.store().await;
            // depth of the own bucket
            let d = (0..160).find(|d| saved.iter().filter(|x| first_diff(&x.0, &own) >= *d).count() <= 8).unwrap();
            let us: Vec<Udp> = saved.iter().map(|x| Udp::new(x.1)).collect();
            let t0 = Instant::now();
            let s = Svc::start_in(None, Peers::new(&ID::new(IH))).await;
            ensure_eq!(s.own, own, "own-id", "own id after the restart");
            let mut heard: Vec<Option<Instant>> = vec![None; saved.len()];
            for (x, u) in us.iter().enumerate() {
                let g = recv(u)?;
                ensure!(matches!(g.as_slice(), [Got::Ping { .. }]), "start-ping", "saved node {x} got {g:?} at start-up");
                let Got::Ping { tid, .. } = &g[0] else { unreachable!() };
                if answers(x, 0.0) {
                    s.feed(u, &bencode::encode(&r_ping(tid, &saved[x].0))).await;
                    heard[x] = Some(Instant::now());
                }
            }
            let cl = Udp::new(addr(250, 2500));
            let newbie = Udp::new(addr(240, 2400));
            let crowd: Vec<Udp> = (0..20).map(|n| Udp::new(addr(210 + n, 2100))).collect();
            let new_id = {
                let mut i = own;
                i[0] ^= 0x80;
                i[15] ^= 0x77;
                i
            };
            let step = [1000u64, 1000, 2900, 700, 1000][traffic];
            let mut want: Vec<f64> = refresh_times(span as f64 - 1.0);
            want.reverse();
            let mut seen = vec![];
            let mut fetched = vec![];
            while t0.elapsed() < Duration::from_secs(span) {
                let at = t0.elapsed().as_secs_f64();
                // stop shortly before and after the time of the next refresh
                let next = want.last().cloned().unwrap_or(1e9);
                let gap = (step as f64 / 1000.0).min(if next - 0.02 > at { next - 0.02 - at } else { 0.05 }).max(0.002);
                rt::pass(Duration::from_secs_f64(gap)).await;
                let now = t0.elapsed().as_secs_f64();
                match traffic {
                    1 => s.feed(&cl, &bencode::encode(&q_find(b"aa", &rid(1), &IH))).await,
                    2 => s.feed(&cl, &bencode::encode(&q_get(b"aa", &rid(1), &IH))).await,
                    3 => s.feed(&cl, &bencode::encode(&r_ping(b"abcde", &rid(1)))).await,
                    4 => {
                        s.tx.send(cl.addr).await.ok();
                    }
                    _ => (),
                }
                let mut finds: Vec<(usize, B, Vec<u8>)> = vec![];
                let mut pings: Vec<(usize, Vec<u8>)> = vec![];
                for (x, u) in us.iter().enumerate() {
                    for g in recv(u)? {
                        match g {
                            Got::Find { tid, target, id } => {
                                ensure_eq!(id, own, "own-id", "id in a find_node query");
                                finds.push((x, target, tid));
                            }
                            Got::Get { .. } => fetched.push(at),
                            Got::Announce { .. } => (),
                            Got::Ping { tid, id } => {
                                ensure_eq!(id, own, "own-id", "id in a ping");
                                pings.push((x, tid));
                            }
                            o => return fail("stray", format!("saved node {x} got {o:?} at {now} s")),
                        }
                    }
                }
                cl.drain();
                if now > next {
                    want.pop();
                    // good: heard from in the last 15 minutes
                    let good: Vec<(B, A)> = (0..saved.len()).filter(|x| heard[*x].map(|t| t.elapsed() < Duration::from_secs(900)).unwrap_or(false)).map(|x| saved[x]).collect();
                    if !good.is_empty() {
                        ensure!(pings.is_empty(), "stray", "pings to {:?} at {now} s", pings.iter().map(|p| p.0).collect::<Vec<_>>());
                        // one search for every part of the table that has room
                        let mut parts: Vec<usize> = (0..d).filter(|i| good.iter().filter(|x| first_diff(&x.0, &own) == *i).count() < 8).collect();
                        parts.push(d);
                        for p in &parts {
                            let Some(q) = finds.iter().find(|f| if *p == d { first_diff(&f.1, &own) >= d } else { first_diff(&f.1, &own) == *p }) else {
                                return fail("not-searched", format!("at {next} s: part {p} of the table has room and was not searched (queries {finds:?})"));
                            };
                            let best = good.iter().min_by_key(|g| xor(&g.0, &q.1)).unwrap();
                            ensure_eq!(us[q.0].addr, best.1, "not-closest", "at {next} s: node asked for part {p}");
                        }
                        ensure_eq!(finds.len(), parts.len(), "too-many", "searches at {next} s");
                        seen.push(finds.len());
                        for (x, _, tid) in finds {
                            if !answers(x, now) {
                                continue;
                            }
                            heard[x] = Some(Instant::now());
                            // an answer may name nobody, or more nodes than a bucket holds
                            let few = match traffic {
                                0 => [2, 22, 0][seen.len() % 3],
                                3 => 0,
                                _ => 2,
                            };
                            let mut names: Vec<(B, A)> = crowd.iter().take(few - few.min(2)).enumerate().map(|(n, u)| (rid(n as u8), u.addr)).collect();
                            if few > 0 {
                                names.extend([(new_id, newbie.addr), saved[0]]);
                            }
                            s.feed(&us[x], &bencode::encode(&r_find(&tid, &saved[x].0, &names))).await;
                            for (n, u) in crowd.iter().enumerate() {
                                let g = recv(u)?;
                                ensure!(g.len() == (n + 2 < few) as usize && g.iter().all(|g| matches!(g, Got::Ping { .. })), "learned", "at {now} s: stranger {n} of an answer with {few} nodes got {g:?}");
                            }
                            // a known node that is named is asked if it has fallen silent
                            let lost = few > 0 && !heard[0].map(|t| t.elapsed() < Duration::from_secs(900)).unwrap_or(false);
                            let g: Vec<Got> = recv(&us[0])?.into_iter().filter(|g| !matches!(g, Got::Get { .. } | Got::Announce { .. })).collect();
                            ensure!(g.iter().all(|g| matches!(g, Got::Ping { .. })) && g.len() == lost as usize, "named", "at {now} s: a saved node that {} and is named in an answer got {g:?}", if lost { "fell silent" } else { "is good" });
                            for g in g {
                                if let (Got::Ping { tid, .. }, true) = (g, answers(0, now)) {
                                    s.feed(&us[0], &bencode::encode(&r_ping(&tid, &saved[0].0))).await;
                                    heard[0] = Some(Instant::now());
                                }
                            }
                            let g = recv(&newbie)?;
                            ensure!(g.iter().all(|g| matches!(g, Got::Ping { .. })), "learned", "a node merely named got {g:?}");
                            ensure!(g.len() == (few > 0) as usize, "learned", "a node named in an answer was not asked whether it is there");
                        }
                        ensure!(!s.knows(&new_id).await?, "learned", "a node entered the table without having answered");
                    } else {
                        ensure!(finds.is_empty(), "no-good", "find_node queries although no good node is known");
                        // everyone known is asked again, otherwise nothing ever would be
                        let who: Vec<usize> = pings.iter().map(|p| p.0).collect();
                        ensure_eq!(who, (0..saved.len()).collect::<Vec<_>>(), "not-asked-again", "at {next} s, no node is good: nodes asked");
                        for (x, tid) in pings {
                            if answers(x, now) {
                                s.feed(&us[x], &bencode::encode(&r_ping(&tid, &saved[x].0))).await;
                                heard[x] = Some(Instant::now());
                            }
                        }
                        seen.push(1000);
                    }
                } else {
                    ensure!(pings.is_empty(), "stray", "pings to {:?} at {now} s", pings.iter().map(|p| p.0).collect::<Vec<_>>());
                    ensure!(finds.is_empty(), "refresh-time", "find_node queries at {now} s; the next refresh is due at {next} s (others so far: {seen:?})");
                }
            }
            if silent == 0 && !saved.is_empty() {
                // finally the learned node answers
                s.tx.send(newbie.addr).await.ok();
                rt::settle().await;
                for g in recv(&newbie)? {
                    if let Got::Ping { tid, .. } = g {
                        s.feed(&newbie, &bencode::encode(&r_ping(&tid, &new_id))).await;
                    }
                }
                let full = shape.first() == Some(&8) && d > 0;
                ensure!(full || s.knows(&new_id).await?, "answered", "a node that answered did not enter the table though there is room");
            }
            Ok(h((seen, fetched.len())))
        })
    });
}

fn main() {
    mc::main(&[("C19", c19), ("C20", c20), ("C21", c21), ("C22", c22), ("C23", c23), ("C24", c24)]);
}

//! C15-C17 routing table, C18 KRPC codec. (C19-C24, the running service, are in dhtnet.rs)
use harness::bencode::{self, V};
use harness::mc::{self, h, opts, Ch, Ctx, Fail, R};
use harness::sys::{self, Act, Call, FsOp};
use harness::{ensure, ensure_eq, rt};
use nargun::verif::data_structures::{SerializableBuf, ID, ID_BIT_COUNT};
use nargun::verif::dht::{Arguments, Message, Node, Nodes, Response, RoutingTable, ValuesOrNodes};
use nargun::verif::peers::peer::Peer;
use std::collections::{BTreeMap, BTreeSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::time::Duration;
use tokio::time::{advance, Instant};

type B = [u8; 20];
const LIFE: Duration = Duration::from_secs(15 * 60);

fn b(id: &ID) -> B {
    id.as_byte_ref().try_into().unwrap()
}
fn xor(a: &B, c: &B) -> B {
    let mut r = *a;
    for i in 0..20 {
        r[i] ^= c[i];
    }
    r
}
fn flip(mut a: B, bit: usize) -> B {
    a[bit / 8] ^= 0x80 >> (bit % 8);
    a
}
fn first_diff(a: &B, c: &B) -> usize {
    (0..160).find(|i| (a[i / 8] ^ c[i / 8]) >> (7 - i % 8) & 1 == 1).unwrap_or(160)
}
fn addr_of(n: usize) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, 1, (n >> 8) as u8, n as u8), 1000 + n as u16)
}

/// A node id given relative to the own id: `fd` is the first differing bit, `k` distinguishes ids.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Rel {
    fd: usize,
    k: usize,
}
fn id_of(own: &B, r: Rel) -> B {
    if r.fd >= 160 {
        return *own;
    }
    let mut x = flip(*own, r.fd);
    // the number k is written into the bits after fd (as many as there are), most significant last
    let room = 159 - r.fd;
    for i in 0..room.min(16) {
        if r.k >> i & 1 == 1 {
            // spread: near and far bits
            let bit = if i % 2 == 0 { r.fd + 1 + i / 2 } else { 159 - i / 2 };
            if bit > r.fd {
                x = flip(x, bit);
            }
        }
    }
    x
}

/// Reference: what was seen and when.
#[derive(Clone, Default)]
struct Model {
    seen: BTreeMap<B, (Instant2, SocketAddrV4)>,
}
type Instant2 = Option<Instant>;

fn table_nodes(t: &RoutingTable) -> Vec<(B, SocketAddrV4)> {
    t.iter_nodes().map(|n| (b(&n.id), n.addr)).collect()
}
fn alive(l: &Instant2) -> bool {
    l.map(|l| l.elapsed() < LIFE).unwrap_or(false)
}

fn check_shape(own: &B, t: &RoutingTable) -> Result<(), Fail> {
    let v = table_nodes(t);
    let ids: BTreeSet<B> = v.iter().map(|x| x.0).collect();
    ensure_eq!(ids.len(), v.len(), "duplicate-node", "nodes in the table, each counted once");
    ensure!(!ids.contains(own), "own-id", "the own id is in the table");
    ensure_eq!(t.count_nodes(), v.len(), "count", "count of nodes");
    ensure_eq!(t.is_empty(), v.is_empty(), "count", "emptiness");
    let mut per = [0usize; 160];
    for i in &ids {
        per[first_diff(own, i)] += 1;
    }
    let mut tail: usize = ids.len();
    let mut ok = false;
    for l in 0..=160 {
        if tail <= 8 {
            ok = true;
            break;
        }
        if l == 160 || per[l] > 8 {
            break;
        }
        tail -= per[l];
    }
    ensure!(ok, "bucket-overflow", "nodes per first differing bit {:?} cannot lie in buckets of eight", per.iter().enumerate().filter(|x| *x.1 > 0).collect::<Vec<_>>());
    Ok(())
}

struct Tab {
    own: B,
    t: RoutingTable,
    m: Model,
    n: usize,
}
impl Tab {
    fn new(t: RoutingTable) -> Self {
        let own = b(t.own_id());
        Tab { own, t, m: Model::default(), n: 0 }
    }
    /// Touches a node and compares the table with the reference.
    fn touch(&mut self, r: Rel) -> Result<(), Fail> {
        let id = id_of(&self.own, r);
        self.touch_id(id)
    }
    /// From the address it is known at, if it is.
    fn touch_id(&mut self, id: B) -> Result<(), Fail> {
        self.n += 1;
        let a = self.m.seen.get(&id).map(|s| s.1).unwrap_or(addr_of(self.n));
        self.touch_from(id, a)
    }
    fn touch_from(&mut self, id: B, a: SocketAddrV4) -> Result<(), Fail> {
        let before: BTreeMap<B, SocketAddrV4> = table_nodes(&self.t).into_iter().collect();
        self.t.touch_node(ID::new(id), a);
        let after: BTreeMap<B, SocketAddrV4> = table_nodes(&self.t).into_iter().collect();
        if id == self.own {
            ensure_eq!(after, before, "own-id", "the table after sighting the own id");
            return Ok(());
        }
        let fd = first_diff(&self.own, &id);
        for (n, _) in &before {
            if !after.contains_key(n) {
                let (l, _) = self.m.seen[n];
                ensure!(!alive(&l), "live-node-dropped", "a live node (first differing bit {}) was dropped for one at bit {fd}", first_diff(&self.own, n));
                // the two share a bucket: it must have been full
                let fds: Vec<usize> = before.keys().map(|k| first_diff(&self.own, k)).collect();
                let fdn = first_diff(&self.own, n);
                let full = (fdn == fd && fds.iter().filter(|f| **f == fd).count() == 8) || (0..=fd.min(fdn)).any(|l| fds.iter().filter(|f| **f >= l).count() == 8);
                ensure!(full, "dropped-with-room", "a node (first differing bit {fdn}) was dropped for one at bit {fd} though there is room: nodes per bit {fds:?}");
                self.m.seen.remove(n);
            }
        }
        for (n, ad) in &after {
            if n != &id {
                ensure!(before.get(n) == Some(ad), "invented-node", "another node appeared or changed its address when one was sighted");
            }
        }
        let known = before.contains_key(&id);
        if after.contains_key(&id) {
            if known && alive(&self.m.seen[&id].0) && a != before[&id] {
                // not the node known to be alive, or it answers from two addresses
                ensure_eq!(after[&id], before[&id], "address", "address of a live node after another one answered with its id");
            } else {
                ensure_eq!(after[&id], a, "address", "address of the sighted node");
                self.m.seen.insert(id, (Some(Instant::now()), a));
            }
        } else {
            ensure!(!known, "live-node-dropped", "a known node vanished when it was sighted again");
            let full = self.m.seen.iter().filter(|(n, s)| first_diff(&self.own, n) == fd && alive(&s.0)).count();
            ensure!(full >= 8, "live-node-refused", "a new live node (first differing bit {fd}) was refused though only {full} live nodes are in its range");
        }
        self.check()
    }
    fn check(&self) -> Result<(), Fail> {
        check_shape(&self.own, &self.t)?;
        let v: BTreeSet<B> = table_nodes(&self.t).into_iter().map(|x| x.0).collect();
        let m: BTreeSet<B> = self.m.seen.keys().cloned().collect();
        ensure_eq!(v, m, "content", "ids in the table");
        for n in &v {
            ensure!(self.t.contains_node(&ID::new(*n)), "contains", "a node of the table is not found in it");
        }
        ensure_eq!(self.t.count_good_nodes(), self.m.seen.values().filter(|s| alive(&s.0)).count(), "liveness", "live nodes");
        Ok(())
    }
    fn lookup(&self, target: &B) -> Result<(), Fail> {
        let tid = ID::new(*target);
        let mut want: Vec<B> = self.m.seen.iter().filter(|(_, s)| alive(&s.0)).map(|(n, _)| *n).collect();
        want.sort_by_key(|n| xor(n, target));
        want.truncate(8);
        let got: Option<Vec<B>> = self.t.get_closest_nodes(&tid).map(|v| v.iter().map(|n| b(&n.id)).collect());
        ensure_eq!(got.clone().unwrap_or_default(), want, "closest", "closest live nodes to {:02x?}", &target[..4]);
        ensure_eq!(self.t.get_closest_node(&tid).map(|n| b(&n.id)), want.first().cloned(), "closest-one", "closest live node");
        let f: Vec<(B, SocketAddrV4)> = self.t.find_node(&tid).map(|n| n.iter().map(|n| (b(&n.id), n.addr)).collect()).unwrap_or_default();
        if self.m.seen.contains_key(target) {
            ensure_eq!(f, vec![(*target, self.m.seen[target].1)], "exact", "lookup of a node in the table");
        } else {
            ensure_eq!(f.iter().map(|x| x.0).collect::<Vec<_>>(), want, "lookup", "lookup of an unknown id");
            for (n, a) in &f {
                ensure_eq!(*a, self.m.seen[n].1, "lookup-address", "address in a lookup");
            }
        }
        Ok(())
    }
}

/// A fresh table whose own id starts with the given three bits.
fn table_with(prefix: u8) -> RoutingTable {
    for s in 0.. {
        sys::seed(s);
        let t = RoutingTable::default();
        if t.own_id().as_byte_ref()[0] >> 5 == prefix {
            return t;
        }
    }
    unreachable!()
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Touch(Rel),
    TouchOwn,
    Again(usize),
    /// a known id answers from an address of its own
    Moved(usize),
    Pass(u64),
}

async fn apply(t: &mut Tab, o: Op) -> Result<(), Fail> {
    match o {
        Op::Touch(r) => t.touch(r),
        Op::TouchOwn => {
            let id = t.own;
            t.touch_id(id)
        }
        Op::Again(i) => {
            let v: Vec<B> = t.m.seen.keys().cloned().collect();
            if v.is_empty() {
                return Ok(());
            }
            let id = v[(i * 7) % v.len()];
            t.touch_id(id)
        }
        Op::Moved(i) => {
            let v: Vec<B> = t.m.seen.keys().cloned().collect();
            if v.is_empty() {
                return Ok(());
            }
            let id = v[(i * 7) % v.len()];
            t.n += 1;
            // from another host, or from another port of the same one
            let a = match t.m.seen[&id].1 {
                a if t.n % 2 == 1 => SocketAddrV4::new(*a.ip(), a.port() ^ 0x4000),
                _ => addr_of(t.n),
            };
            t.touch_from(id, a)
        }
        Op::Pass(s) => {
            advance(Duration::from_secs(s)).await;
            t.check()
        }
    }
}

/// Tables are built from a number of nodes per depth, in one of several orders, then aged.
#[derive(Clone, Debug)]
struct Build {
    prefix: u8,
    counts: Vec<(usize, usize)>,
    order: usize,
    age: usize,
}
fn builds(quick: bool) -> Vec<Build> {
    let mut v = vec![];
    let c0: &[usize] = if quick { &[0, 7, 9] } else { &[0, 1, 7, 8, 9] };
    let c1: &[usize] = if quick { &[0, 8] } else { &[0, 1, 7, 8, 9] };
    let c2: &[usize] = if quick { &[0, 9] } else { &[0, 1, 8, 9] };
    let cd: &[usize] = if quick { &[0, 3] } else { &[0, 1, 8] };
    let prefixes: &[u8] = if quick { &[0b010, 0b101] } else { &[0b000, 0b010, 0b101, 0b111] };
    for &p in prefixes {
        for &a in c0 {
            for &bb in c1 {
                for &c in c2 {
                    for &d in cd {
                        for order in 0..if quick { 2 } else { 3 } {
                            for age in 0..3 {
                                if a + bb + c + d == 0 && (order > 0 || age > 0) {
                                    continue;
                                }
                                v.push(Build { prefix: p, counts: vec![(0, a), (1, bb), (2, c), (5, d)], order, age });
                            }
                        }
                    }
                }
            }
        }
    }
    v
}
fn build_order(bd: &Build) -> Vec<Rel> {
    let mut groups: Vec<Vec<Rel>> = bd.counts.iter().map(|(fd, n)| (0..*n).map(|k| Rel { fd: *fd, k: k + 1 }).collect()).collect();
    match bd.order {
        0 => groups.concat(),
        1 => {
            groups.reverse();
            groups.concat()
        }
        _ => {
            let mut o = vec![];
            for i in 0..10 {
                for g in &groups {
                    if let Some(r) = g.get(i) {
                        o.push(*r);
                    }
                }
            }
            o
        }
    }
}
async fn build(bd: &Build) -> Result<Tab, Fail> {
    let mut t = Tab::new(table_with(bd.prefix));
    let o = build_order(bd);
    let half = o.len() / 2;
    for (i, r) in o.iter().enumerate() {
        if bd.age == 1 && i == half {
            advance(Duration::from_secs(14 * 60)).await;
        }
        t.touch(*r)?;
    }
    match bd.age {
        1 => advance(Duration::from_secs(60)).await, // the first half just expired
        2 => advance(LIFE - Duration::from_millis(1)).await, // everyone about to
        _ => {}
    }
    t.check()?;
    Ok(t)
}

fn c15(ctx: &mut Ctx) {
    let quick = ctx.quick();
    ctx.assume("ids are built relative to the own id: every split depth 0-2, 5, the last five levels, and (second scenario) every level 0-159; time in steps around the 15 minute limit");
    let ops: Vec<Op> = vec![
        Op::Touch(Rel { fd: 0, k: 20 }),
        Op::Touch(Rel { fd: 1, k: 20 }),
        Op::Touch(Rel { fd: 2, k: 20 }),
        Op::Touch(Rel { fd: 5, k: 20 }),
        Op::Touch(Rel { fd: 0, k: 21 }),
        Op::TouchOwn,
        Op::Again(0),
        Op::Again(1),
        Op::Moved(1),
        Op::Pass(1),
        Op::Pass(15 * 60),
    ];
    // [thorough: many tables and short histories, some tables and longer ones]
    let spaces: &[(&str, bool, u32)] = if quick { &[("table histories", true, 3)] } else { &[("table histories", false, 3), ("longer table histories", true, 4)] };
    for &(name, few, depth) in spaces {
        let bs = builds(few);
        let seqs = (ops.len() as u64).pow(depth as u32);
        let n = bs.len() as u64 * seqs / ops.len() as u64;
        // the last operation is enumerated inside a case
        let o2 = ops.clone();
        let per = seqs / ops.len() as u64;
        ctx.each(name, n, move |i| {
            let bd = &bs[(i / per) as usize];
            let mut k = i % per;
            let mut seq = vec![];
            for _ in 0..depth - 1 {
                seq.push(o2[(k % o2.len() as u64) as usize]);
                k /= o2.len() as u64;
            }
            let mut out = 0u64;
            for last in &o2 {
                let mut seq = seq.clone();
                seq.push(*last);
                out = out.rotate_left(3) ^ rt::run(rt::RtOpts::default(), async {
                    let mut t = build(bd).await?;
                    for o in &seq {
                        apply(&mut t, *o).await.map_err(|mut e| {
                            e.msg = format!("{} (built {bd:?}, then {seq:?})", e.msg);
                            e
                        })?;
                    }
                    Ok::<u64, Fail>(h((t.m.seen.len(), t.t.count_good_nodes(), bd.prefix)))
                })?;
            }
            Ok(out)
        });
    }
    // every depth: nine nodes differing first at bit d (as far as there are so many ids), with or
    // without eight others above, then the others, in both orders
    ctx.each("every depth", 160 * 4, move |i| {
        let d = (i / 4) as usize;
        let var = i % 4;
        rt::run(rt::RtOpts::default(), async move {
            let mut t = Tab::new(table_with([0b010, 0b101][(var % 2) as usize]));
            let room = 1usize << (159 - d).min(6);
            let mut v: Vec<Rel> = (0..9.min(room)).map(|k| Rel { fd: d, k }).collect();
            if var >= 2 {
                for dd in [0, d.saturating_sub(1), (d + 1).min(159)] {
                    let room = 1usize << (159 - dd).min(6);
                    v.extend((0..9.min(room)).map(|k| Rel { fd: dd, k: k + if dd == d { 9 } else { 0 } }));
                }
                v.reverse();
            }
            for r in &v {
                if r.k < 1usize << (159 - r.fd).min(16) {
                    t.touch(*r)?;
                }
            }
            let own = t.own;
            t.touch_id(own)?;
            advance(LIFE).await;
            t.check()?;
            // all are stale now: the same number of new nodes fits
            for k in 30..38 {
                if (k as usize) < 1usize << (159 - d).min(16) {
                    t.touch(Rel { fd: d, k })?;
                }
            }
            Ok(h((d, var, t.m.seen.len())))
        })
    });
    // the deepest levels hold fewer than eight ids each: all ids sharing 155 bits, every rotation
    ctx.each("last levels", 31 * 4, move |i| {
        let (rot, var) = ((i / 4) as usize, i % 4);
        rt::run(rt::RtOpts::default(), async move {
            let mut t = Tab::new(table_with([0b010, 0b101][(var % 2) as usize]));
            let own = t.own;
            let mut ids: Vec<B> = (1..32u8)
                .map(|x| {
                    let mut y = own;
                    y[19] ^= x;
                    y
                })
                .collect();
            ids.rotate_left(rot);
            if var >= 2 {
                ids.reverse();
            }
            for x in ids {
                t.touch_id(x)?;
            }
            t.touch_id(own)?;
            // levels 155..159 hold at most 16, 8, 4, 2, 1 ids: everything but the first fits
            let deep = t.m.seen.keys().filter(|x| first_diff(&own, x) > 155).count();
            ensure_eq!(deep, 15, "deep", "nodes at the last levels");
            Ok(h((rot, var)))
        })
    });
    let depth = ctx.by(4, 6);
    ctx.explore("restart histories", opts(), move |ch| {
        let ch = ch.clone();
        home();
        rt::run(rt::RtOpts::default(), async move {
            let mut t = Tab::new(table_with(0b011));
            for k in 0..8 {
                t.touch(Rel { fd: 0, k })?;
            }
            for s in 0..depth {
                match ch.pick(7) {
                    6 => apply(&mut t, Op::Moved(s)).await?,
                    0 => t.touch(Rel { fd: 0, k: 10 + s })?,
                    1 => t.touch(Rel { fd: 1, k: 10 + s })?,
                    2 => t.touch(Rel { fd: 4, k: 10 + s })?,
                    3 => apply(&mut t, Op::Again(s)).await?,
                    4 => apply(&mut t, Op::Pass(500)).await?,
                    _ => {
                        ch.note(|| "save and load".into());
                        t.t.store().await;
                        t.t = RoutingTable::new().await;
                        ensure_eq!(b(t.t.own_id()), t.own, "own-id-kept", "own id after a restart");
                        for v in t.m.seen.values_mut() {
                            v.0 = None;
                        }
                        t.check()?;
                    }
                }
            }
            Ok(h(t.m.seen.keys().map(|k| first_diff(&t.own, k)).collect::<Vec<_>>()))
        })
    });
}

fn c16(ctx: &mut Ctx) {
    let quick = ctx.quick();
    let bs = builds(quick);
    ctx.assume("tables from the same generator as C15; targets: the own id, every known id, ids differing from those at bits across all levels");
    ctx.each("lookups", bs.len() as u64, move |i| {
        let bd = &bs[i as usize];
        rt::run(rt::RtOpts::default(), async {
            let t = build(bd).await?;
            let mut targets: Vec<B> = vec![t.own, xor(&t.own, &[0xff; 20]), [0; 20], [0xff; 20]];
            for k in 0..20 {
                targets.push(flip(t.own, k));
            }
            for k in [30, 100, 159] {
                targets.push(flip(t.own, k));
            }
            for n in t.m.seen.keys() {
                targets.push(*n);
                for k in [0, 1, 2, 3, 5, 6, 7, 8, 158, 159] {
                    targets.push(flip(*n, k));
                }
            }
            for x in &targets {
                t.lookup(x).map_err(|mut e| {
                    e.msg = format!("{} (built {bd:?})", e.msg);
                    e
                })?;
            }
            Ok(h((bd.prefix, t.m.seen.len(), t.t.count_good_nodes())))
        })
    });
    // tables as they are after days: many full levels, some of them silent
    let levels: Vec<usize> = if quick { vec![4, 9, 13, 18, 40] } else { (1..=48).chain([70]).collect() };
    ctx.each("large tables", levels.len() as u64 * 8, move |i| {
        let (n, var) = (levels[(i / 8) as usize], i % 8);
        rt::run(rt::RtOpts::default(), async move {
            let mut t = Tab::new(table_with([0b010, 0b101][(var & 1) as usize]));
            let all = |turn: usize| -> Vec<Rel> {
                let mut v = vec![];
                for fd in 0..n {
                    if (fd % 3 == turn) == (var & 4 != 0) {
                        v.extend((0..8).map(|k| Rel { fd, k }));
                    }
                }
                if var & 2 != 0 {
                    v.reverse();
                }
                v
            };
            // some addresses are shared by two nodes
            let meet = |t: &mut Tab, r: Rel| if n % 2 == 1 { t.touch_from(id_of(&t.own.clone(), r), addr_of(r.fd * 8 + (r.k & !2))) } else { t.touch(r) };
            for r in all(0) {
                meet(&mut t, r)?;
            }
            if var & 4 != 0 {
                advance(LIFE).await; // those are silent from now on
            }
            for turn in 1..3 {
                for r in all(turn) {
                    meet(&mut t, r)?;
                }
            }
            t.check()?;
            let mut targets = vec![t.own, [0; 20], [0xff; 20]];
            for k in 0..(n + 2).min(160) {
                targets.push(flip(t.own, k));
                targets.push(flip(flip(t.own, k), 159));
            }
            for k in (0..n).step_by(2) {
                let x = id_of(&t.own, Rel { fd: k, k: 5 });
                targets.extend([x, flip(x, 159), flip(x, 158), flip(x, 0)]);
            }
            for x in &targets {
                t.lookup(x)?;
            }
            Ok(h((n, var)))
        })
    });
    let depth = ctx.by(5, 7);
    ctx.explore("lookup histories", opts(), move |ch| {
        let ch = ch.clone();
        home();
        rt::run(rt::RtOpts::default(), async move {
            let mut t = Tab::new(table_with(0b100));
            for s in 0..depth {
                match ch.pick(8) {
                    7 => apply(&mut t, Op::Moved(s)).await?,
                    0 => {
                        for k in 0..3 {
                            t.touch(Rel { fd: 0, k: 3 * s + k })?;
                        }
                    }
                    1 => {
                        for k in 0..3 {
                            t.touch(Rel { fd: 1, k: 3 * s + k })?;
                        }
                    }
                    2 => {
                        for k in 0..3 {
                            t.touch(Rel { fd: 3, k: 3 * s + k })?;
                        }
                    }
                    3 => t.touch(Rel { fd: 9, k: s })?,
                    4 => apply(&mut t, Op::Again(s)).await?,
                    5 => apply(&mut t, Op::Pass(400)).await?,
                    _ => {
                        ch.note(|| "save and load".into());
                        t.t.store().await;
                        t.t = RoutingTable::new().await;
                        // nobody has been heard of since
                        for v in t.m.seen.values_mut() {
                            v.0 = None;
                        }
                        t.check()?;
                    }
                }
                for k in [0, 1, 2, 3, 4, 9, 10] {
                    t.lookup(&flip(t.own, k))?;
                }
                t.lookup(&t.own)?;
                for x in t.m.seen.keys().take(4) {
                    t.lookup(x)?;
                    t.lookup(&flip(*x, 159))?;
                }
            }
            Ok(h((t.m.seen.len(), t.t.count_good_nodes())))
        })
    });
}

// ------------------------------------------------------------------ C17
/// Re-roots the home directory into a scratch directory of this execution.
fn home() -> String {
    let d = format!("{}/home", sys::scratch());
    std::fs::create_dir_all(&d).unwrap();
    sys::with(|e| {
        e.rewrite.retain(|r| r.0 != "/nargun-home");
        e.rewrite.push(("/nargun-home".into(), d.clone()));
    });
    d
}
fn fill(t: &mut RoutingTable, counts: &[(usize, usize)], salt: usize) {
    let own = b(t.own_id());
    let mut n = salt * 50;
    for (fd, c) in counts {
        for k in 0..*c {
            n += 1;
            t.touch_node(ID::new(id_of(&own, Rel { fd: *fd, k: k + salt * 20 })), addr_of(n));
        }
    }
}
type Snap = (B, BTreeMap<B, SocketAddrV4>);
fn snap(t: &RoutingTable) -> Snap {
    (b(t.own_id()), table_nodes(t).into_iter().collect())
}

/// A tiny file system on which the recorded operations are replayed up to a crash.
#[derive(Clone, Default)]
struct Disk {
    names: BTreeMap<String, usize>,
    dirs: BTreeSet<String>,
    data: Vec<Vec<u8>>,
}
impl Disk {
    fn load(dir: &str, root: &str, d: &mut Disk) {
        for e in std::fs::read_dir(dir).unwrap().flatten() {
            let p = e.path().display().to_string();
            if e.path().is_dir() {
                d.dirs.insert(p.clone());
                Disk::load(&p, root, d);
            } else {
                d.names.insert(p, d.data.len());
                d.data.push(std::fs::read(e.path()).unwrap());
            }
        }
    }
    fn write_to(&self, from: &str, to: &str) {
        let _ = std::fs::remove_dir_all(to);
        std::fs::create_dir_all(to).unwrap();
        for d in &self.dirs {
            std::fs::create_dir_all(d.replacen(from, to, 1)).unwrap();
        }
        for (n, i) in &self.names {
            let p = n.replacen(from, to, 1);
            std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
            std::fs::write(p, &self.data[*i]).unwrap();
        }
    }
}
/// How unsynced data of the file being written last looks after the crash.
#[derive(Clone, Copy, Debug)]
enum Torn {
    All,
    Prefix(usize),
    Zeros(usize),
    ZerosThenData(usize),
}
fn put(f: &mut Vec<u8>, off: usize, d: &[u8]) {
    if f.len() < off + d.len() {
        f.resize(off + d.len(), 0);
    }
    f[off..off + d.len()].copy_from_slice(d);
}
/// State after a crash: operations 0..issued were issued, directory operations 0..meta reached the
/// disk in order, unsynced data is torn.
fn crash(base: &Disk, log: &[FsOp], issued: usize, meta: usize, torn: Torn) -> Disk {
    let mut d = base.clone();
    // which file object each operation refers to, in issue order
    let mut live = base.names.clone();
    let mut objs = d.data.len();
    let mut target: Vec<Option<usize>> = vec![];
    for op in &log[..issued] {
        match op {
            FsOp::Open { path, create, .. } => {
                if !live.contains_key(path) && *create {
                    live.insert(path.clone(), objs);
                    objs += 1;
                }
                target.push(live.get(path).copied());
            }
            FsOp::Write { path, .. } | FsOp::Truncate { path, .. } | FsOp::Sync { path } => target.push(live.get(path).copied()),
            FsOp::Rename { from, to } => {
                let o = live.remove(from);
                target.push(o);
                if let Some(o) = o {
                    live.insert(to.clone(), o);
                }
            }
            FsOp::Unlink { path } => target.push(live.remove(path)),
            _ => target.push(None),
        }
    }
    d.data.resize(objs, vec![]);
    // data made durable: everything before the last sync of its object
    let mut synced_until = vec![0usize; objs];
    for (i, op) in log[..issued].iter().enumerate() {
        if let (FsOp::Sync { .. }, Some(o)) = (op, target[i]) {
            synced_until[o] = i;
        }
    }
    let last_obj = log[..issued].iter().zip(&target).rev().find_map(|(op, t)| if let FsOp::Write { .. } = op { *t } else { None });
    for (i, op) in log[..issued].iter().enumerate() {
        match op {
            FsOp::Mkdir { path } if i < meta => {
                d.dirs.insert(path.clone());
            }
            FsOp::Open { path, trunc, .. } if i < meta => {
                if let Some(o) = target[i] {
                    d.names.entry(path.clone()).or_insert(o);
                    if *trunc {
                        d.data[o].clear();
                    }
                }
            }
            FsOp::Truncate { len, .. } if i < meta => {
                if let Some(o) = target[i] {
                    d.data[o].resize(*len as usize, 0);
                }
            }
            FsOp::Rename { from, to } if i < meta => {
                if let Some(o) = d.names.remove(from) {
                    d.names.insert(to.clone(), o);
                }
            }
            FsOp::Unlink { path } if i < meta => {
                d.names.remove(path);
            }
            FsOp::Write { off, data, .. } => {
                if let Some(o) = target[i] {
                    let off = *off as usize;
                    if i < synced_until[o] {
                        put(&mut d.data[o], off, data);
                        continue;
                    }
                    let t = if Some(o) == last_obj { torn } else { Torn::All };
                    match t {
                        Torn::All => put(&mut d.data[o], off, data),
                        Torn::Prefix(n) => {
                            if off < n {
                                let k = data.len().min(n - off);
                                put(&mut d.data[o], off, &data[..k]);
                            }
                        }
                        Torn::Zeros(n) => {
                            let z: Vec<u8> = data.iter().enumerate().map(|(j, x)| if off + j < n { *x } else { 0 }).collect();
                            put(&mut d.data[o], off, &z);
                        }
                        Torn::ZerosThenData(n) => {
                            let z: Vec<u8> = data.iter().enumerate().map(|(j, x)| if off + j >= n { *x } else { 0 }).collect();
                            put(&mut d.data[o], off, &z);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    d
}

fn is_fresh(t: &RoutingTable) -> bool {
    t.is_empty()
}
/// The table found at start-up must be one of `allowed` or an empty one, and work.
async fn check_restart(allowed: &[Snap], empty_ok: bool, what: &str) -> R {
    let mut t = RoutingTable::new().await;
    let s = snap(&t);
    let known = allowed.iter().position(|a| *a == s);
    if known.is_none() {
        ensure!(empty_ok, "not-the-saved-table", "{what}: the table found is not the saved one ({} nodes)", s.1.len());
        ensure!(is_fresh(&t), "garbage-table", "{what}: the table found ({} nodes) is neither the old nor the new one nor empty", s.1.len());
    }
    // it works: sightings, lookups, the next save
    let own = b(t.own_id());
    check_shape(&own, &t)?;
    let id = id_of(&own, Rel { fd: 3, k: 40 });
    t.touch_node(ID::new(id), addr_of(77));
    ensure!(t.contains_node(&ID::new(id)), "restart-unusable", "{what}: a node cannot be added after start-up");
    let _ = t.find_node(&ID::new(flip(id, 150)));
    let _ = t.iter_over_ids_within_fillable_buckets().count();
    t.store().await;
    let again = RoutingTable::new().await;
    ensure_eq!(snap(&again), snap(&t), "next-save", "{what}: the table after the next save and load");
    Ok(h((known, s.1.len())))
}

fn c17(ctx: &mut Ctx) {
    ctx.assume("directory operations reach the disk in issue order, each prefix of them; data written but not synced may be missing, cut at any byte, or zero from or up to any byte; data is durable once its file was synced");
    let sizes: Vec<Vec<(usize, usize)>> = vec![vec![], vec![(0, 1)], vec![(0, 8), (1, 3)], vec![(0, 8), (1, 8), (2, 8), (5, 4)], vec![(0, 3), (159, 1), (158, 2), (157, 4), (150, 8)]];
    // round trips, also of tables of several tens of kilobytes
    let mut sz = sizes.clone();
    sz.extend([40, 130].map(|n| (0..n).map(|fd| (fd, 8)).collect()));
    let n = sz.len() as u64;
    ctx.each("round trips", n * 8 * 2, move |i| {
        let (c, p, kill) = (&sz[(i % n) as usize], (i / n % 8) as u8, i / n / 8 == 1);
        home();
        let s = rt::run_with(rt::RtOpts::default(), if kill { rt::Leftover::Drop } else { rt::Leftover::Run }, async {
            let mut t = table_with(p);
            fill(&mut t, c, 0);
            t.store().await;
            snap(&t)
        });
        rt::run(rt::RtOpts::default(), check_restart(&[s], false, "after a completed save"))
    });
    // crashes
    let pairs: Vec<(Option<usize>, usize)> = if ctx.quick() { vec![(None, 2), (Some(2), 3), (Some(3), 1)] } else { (0..5).flat_map(|bb| (0..6).map(move |a| (if a == 5 { None } else { Some(a) }, bb))).collect() };
    for (old, new) in pairs {
        let (co, cn) = (old.map(|o| sizes[o].clone()), sizes[new].clone());
        ctx.explore(&format!("crash while saving {new} over {old:?}"), opts(), move |ch| {
            let hm = home();
            let mut allowed = vec![];
            let a = rt::run(rt::RtOpts::default(), async {
                if let Some(c) = &co {
                    let mut t = table_with(0b001);
                    fill(&mut t, c, 0);
                    t.store().await;
                    allowed.push(snap(&t));
                }
            });
            let mut base = Disk::default();
            Disk::load(&hm, &hm, &mut base);
            sys::track(&hm);
            sys::with(|e| e.log = Some(vec![]));
            let killed_after = rt::run(rt::RtOpts::default(), async {
                let mut t = table_with(0b110);
                fill(&mut t, &cn, 1);
                t.store().await;
                allowed.push(snap(&t));
            });
            let log: Vec<FsOp> = sys::with(|e| e.log.take().unwrap()).unwrap().into_iter().filter(|o| !matches!(o, FsOp::Close { .. }) && !matches!(o, FsOp::Open { write: false, .. })).collect();
            ensure!(log.iter().any(|o| matches!(o, FsOp::Write { .. })), "engine-nothing-written", "the save wrote nothing");
            let issued = ch.pick(log.len() + 1);
            let meta = issued - ch.pick(issued + 1);
            let len = log[..issued].iter().filter_map(|o| if let FsOp::Write { off, data, .. } = o { Some(*off as usize + data.len()) } else { None }).max().unwrap_or(0);
            let unsynced = len > 0 && !matches!(log[..issued].iter().rev().find(|o| matches!(o, FsOp::Write { .. } | FsOp::Sync { .. })), Some(FsOp::Sync { .. }));
            let torn = if unsynced && meta > 0 {
                match ch.pick(4) {
                    0 => Torn::All,
                    1 => Torn::Prefix(ch.pick(len)),
                    2 => Torn::Zeros(ch.pick(len)),
                    _ => Torn::ZerosThenData(1 + ch.pick(len)),
                }
            } else {
                Torn::All
            };
            let what = format!("crash after {issued} of {} operations, {meta} of them in the directory, {torn:?}", log.len());
            ch.note(|| what.clone());
            let disk = crash(&base, &log, issued, meta, torn);
            let hm2 = format!("{}/home2", sys::scratch());
            disk.write_to(&hm, &hm2);
            sys::with(|e| {
                e.rewrite.clear();
                e.rewrite.push(("/nargun-home".into(), hm2.clone()));
            });
            rt::run(rt::RtOpts::default(), check_restart(&allowed, true, &what))
        });
    }
    // the process dies while background file jobs are still queued
    ctx.explore("process killed while saving", opts(), move |ch| {
        home();
        let old = rt::run(rt::RtOpts::default(), async {
            let mut t = table_with(0b001);
            fill(&mut t, &[(0, 8), (1, 2)], 0);
            t.store().await;
            snap(&t)
        });
        let stop = ch.pick(40);
        let mut new = None;
        let done = rt::run_with(rt::RtOpts::default(), rt::Leftover::Drop, async {
            let mut t = table_with(0b110);
            fill(&mut t, &[(0, 3), (2, 2)], 1);
            new = Some(snap(&t));
            // polled a bounded number of times, then forgotten
            let mut f = Box::pin(t.store());
            let mut k = 0;
            std::future::poll_fn(|cx| {
                if k == stop {
                    return std::task::Poll::Ready(false);
                }
                k += 1;
                f.as_mut().poll(cx).map(|_| true)
            })
            .await
        });
        let new = new.unwrap();
        rt::run(rt::RtOpts::default(), check_restart(&[old, new.clone()][if done { 1.. } else { 0.. }], !done, &format!("killed after {stop} steps (save finished: {done})")))
    });
    // errors of the file system while saving
    let faults = ctx.by(1, 2);
    ctx.explore("errors while saving", opts().dev(faults), move |ch| {
        let hm = home();
        let first = ch.pick(2) == 1;
        let old = if first {
            Some(rt::run(rt::RtOpts::default(), async {
                let mut t = table_with(0b001);
                fill(&mut t, &[(0, 8), (1, 2)], 0);
                t.store().await;
                snap(&t)
            }))
        } else {
            None
        };
        sys::track(&hm);
        let c2 = ch.clone();
        let failed = std::rc::Rc::new(std::cell::Cell::new(0));
        let f2 = failed.clone();
        sys::with(|e| {
            e.fault = Some(Box::new(move |call, path, n| {
                let acts: &[Act] = match call {
                    Call::Write => &[Act::Pass, Act::Errno(libc::ENOSPC), Act::Errno(libc::EIO), Act::Short(1), Act::Short(40), Act::Errno(libc::EINTR)],
                    Call::Sync => &[Act::Pass, Act::Errno(libc::EIO), Act::Errno(libc::ENOSPC)],
                    Call::Close => &[Act::Pass],
                    Call::Open => &[Act::Pass, Act::Errno(libc::ENOSPC), Act::Errno(libc::EACCES), Act::Errno(libc::EMFILE)],
                    _ => &[Act::Pass, Act::Errno(libc::ENOSPC), Act::Errno(libc::EIO)],
                };
                let k = c2.deviate(acts.len());
                if let Act::Errno(x) = acts[k] {
                    if x != libc::EINTR {
                        f2.set(f2.get() + 1);
                    }
                }
                c2.note(|| format!("{call:?} {} {n}: {:?}", path.rsplit('/').next().unwrap_or(""), acts[k]));
                acts[k]
            }))
        });
        let new = rt::run(rt::RtOpts::default(), async {
            let mut t = table_with(0b110);
            fill(&mut t, &[(0, 3), (2, 2)], 1);
            t.store().await;
            snap(&t)
        });
        sys::with(|e| e.fault = None);
        let mut allowed = vec![new];
        if failed.get() > 0 {
            allowed.extend(old);
        }
        rt::run(rt::RtOpts::default(), check_restart(&allowed, failed.get() > 0, &format!("{} failed calls", failed.get())))
    });
}
use std::future::Future;

// ------------------------------------------------------------------ C18
fn buf(x: &[u8]) -> SerializableBuf {
    SerializableBuf::from(x.to_vec())
}
fn k(x: &str) -> Vec<u8> {
    x.as_bytes().to_vec()
}
fn node_bytes(n: &(B, SocketAddrV4)) -> Vec<u8> {
    let mut v = n.0.to_vec();
    v.extend(n.1.ip().octets());
    v.extend(n.1.port().to_be_bytes());
    v
}
fn peer_bytes(a: &SocketAddrV4) -> Vec<u8> {
    let mut v = a.ip().octets().to_vec();
    v.extend(a.port().to_be_bytes());
    v
}
/// What a message says, as the standard dictionary.
fn meaning(m: &Message) -> V {
    fn nodes(n: &Nodes) -> V {
        V::Bytes(n.iter().flat_map(|n| node_bytes(&(b(&n.id), n.addr))).collect())
    }
    let id = |i: &ID| V::Bytes(b(i).to_vec());
    match m {
        Message::Query { transaction_id, method_name, arguments, .. } => {
            let a = match arguments {
                Arguments::Ping { id: i } => vec![(k("id"), id(i))],
                Arguments::FindNode { id: i, target } => vec![(k("id"), id(i)), (k("target"), id(target))],
                Arguments::GetPeers { id: i, info_hash } => vec![(k("id"), id(i)), (k("info_hash"), id(info_hash))],
                Arguments::AnnouncePeer { id: i, info_hash, port, token } => vec![(k("id"), id(i)), (k("info_hash"), id(info_hash)), (k("port"), bencode::int(*port as i128)), (k("token"), bencode::bytes(token.as_ref()))],
                #[allow(unreachable_patterns)]
                _ => vec![],
            };
            bencode::dict(vec![(k("a"), bencode::dict(a)), (k("q"), bencode::s(method_name)), (k("t"), bencode::bytes(transaction_id.as_ref())), (k("y"), bencode::s("q"))])
        }
        Message::Response { transaction_id, response, .. } => {
            let r = match response {
                Response::GetPeers { id: i, token, values_or_nodes } => {
                    let mut v = vec![(k("id"), id(i)), (k("token"), bencode::bytes(token.as_ref()))];
                    match values_or_nodes {
                        ValuesOrNodes::Values { values } => v.push((k("values"), V::List(values.iter().map(|p| V::Bytes(peer_bytes(p.addr()))).collect()))),
                        ValuesOrNodes::Nodes { nodes: n } => v.push((k("nodes"), nodes(n))),
                        ValuesOrNodes::ValuesAndNodes { values, nodes: n } => {
                            v.insert(1, (k("nodes"), nodes(n)));
                            v.push((k("values"), V::List(values.iter().map(|p| V::Bytes(peer_bytes(p.addr()))).collect())))
                        }
                    }
                    v
                }
                Response::FindNode { id: i, nodes: n } => vec![(k("id"), id(i)), (k("nodes"), nodes(n))],
                Response::Ping { id: i } | Response::AnnouncePeer { id: i } => vec![(k("id"), id(i))],
            };
            bencode::dict(vec![(k("r"), bencode::dict(r)), (k("t"), bencode::bytes(transaction_id.as_ref())), (k("y"), bencode::s("r"))])
        }
        Message::Error { transaction_id, error, .. } => {
            let e = error
                .iter()
                .map(|e| match e {
                    nargun::verif::dht::Error::Code(c) => bencode::int(*c as i128),
                    nargun::verif::dht::Error::Desc(d) => bencode::s(d),
                })
                .collect();
            bencode::dict(vec![(k("e"), V::List(e)), (k("t"), bencode::bytes(transaction_id.as_ref())), (k("y"), bencode::s("e"))])
        }
    }
}
struct Dom {
    ids: Vec<B>,
    tids: Vec<Vec<u8>>,
    tokens: Vec<Vec<u8>>,
    ports: Vec<u16>,
    addrs: Vec<SocketAddrV4>,
    node_lists: Vec<Vec<(B, SocketAddrV4)>>,
    value_lists: Vec<Vec<SocketAddrV4>>,
}
fn dom(quick: bool) -> Dom {
    let mut digits = [0u8; 20];
    for i in 0..20 {
        digits[i] = b'0' + (i % 10) as u8;
    }
    let mut mixed = *b"i1e20:d1:ade2:rel\0\xff\x80";
    mixed[17] = 0;
    let ids = vec![[0u8; 20], [0xff; 20], digits, mixed];
    let mut tids: Vec<Vec<u8>> = vec![vec![], vec![0], b"aa".to_vec(), vec![0xff, 0xfe, 0x80, 0], b"0:e1:".to_vec(), (0..20).collect()];
    let mut tokens: Vec<Vec<u8>> = vec![vec![], b"x".to_vec(), vec![0, 0xff, b'e', b':', 0x80], (100..120).collect()];
    for n in [32usize, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] {
        let x: Vec<u8> = (0..n).map(|i| (i * 31 + n) as u8).collect();
        tids.push(x.clone());
        tokens.push(x);
    }
    if !quick {
        // every single byte value as an id of a transaction or a token
        tids.extend((0..=255u8).map(|x| vec![x, 255 - x]));
        tokens.extend((0..=255u8).map(|x| vec![b'1', x, b':']));
    }
    let addrs: Vec<SocketAddrV4> = [([0, 0, 0, 0], 0u16), ([1, 2, 3, 4], 1), ([255, 255, 255, 255], 65535), ([10, 0, 200, 7], 256), ([192, 168, 0, 1], 255), ([127, 0, 0, 1], 32768)].iter().map(|(a, p)| SocketAddrV4::new(Ipv4Addr::from(*a), *p)).collect();
    let mut node_lists = vec![vec![]];
    for n in [1usize, 2, 3, 7, 8, 9, 65, 96] {
        for off in 0..2 {
            node_lists.push((0..n).map(|i| (ids[(i + off) % ids.len()], addrs[(i * 2 + off) % addrs.len()])).collect());
        }
    }
    let mut value_lists = vec![vec![]];
    for n in [1usize, 2, 3, 6, 50, 101, 290] {
        value_lists.push((0..n).map(|i| addrs[(i + n) % addrs.len()]).collect());
    }
    Dom { ids, tids, tokens, ports: vec![0, 1, 9, 10, 255, 256, 6881, 32768, 65535], addrs, node_lists, value_lists }
}
/// Every message of the domain: how the client builds it and what it must mean.
fn all_messages(d: &Dom) -> Vec<(V, Box<dyn Fn() -> Message + Send + Sync>)> {
    let mut v: Vec<(V, Box<dyn Fn() -> Message + Send + Sync>)> = vec![];
    let q = |name: &str, t: &[u8], a: Vec<(Vec<u8>, V)>| bencode::dict(vec![(k("a"), bencode::dict(a)), (k("q"), bencode::s(name)), (k("t"), bencode::bytes(t)), (k("y"), bencode::s("q"))]);
    let r = |t: &[u8], a: Vec<(Vec<u8>, V)>| bencode::dict(vec![(k("r"), bencode::dict(a)), (k("t"), bencode::bytes(t)), (k("y"), bencode::s("r"))]);
    let nodes = |n: &Vec<(B, SocketAddrV4)>| -> Vec<Node> { n.iter().map(|x| Node::new_good(ID::new(x.0), x.1)).collect() };
    for t in &d.tids {
        for i in &d.ids {
            let (t2, i2) = (t.clone(), *i);
            let (t1, i1) = (t2.clone(), i2);
            v.push((q("ping", t, vec![(k("id"), bencode::bytes(i))]), Box::new(move || Message::ping_query(&ID::new(i1), buf(&t1)))));
            let (t1, i1) = (t2.clone(), i2);
            v.push((r(t, vec![(k("id"), bencode::bytes(i))]), Box::new(move || Message::ping_resp(&ID::new(i1), buf(&t1)))));
            let (t1, i1) = (t2.clone(), i2);
            v.push((r(t, vec![(k("id"), bencode::bytes(i))]), Box::new(move || Message::announce_peer_resp(&ID::new(i1), buf(&t1)))));
            for x in &d.ids {
                let (t1, x1) = (t2.clone(), *x);
                v.push((q("find_node", t, vec![(k("id"), bencode::bytes(i)), (k("target"), bencode::bytes(x))]), Box::new(move || Message::find_nodes_query(&ID::new(i2), &ID::new(x1), buf(&t1)))));
                let (t1, x1) = (t2.clone(), *x);
                v.push((q("get_peers", t, vec![(k("id"), bencode::bytes(i)), (k("info_hash"), bencode::bytes(x))]), Box::new(move || Message::get_peers_query(&ID::new(i2), &ID::new(x1), buf(&t1)))));
            }
        }
    }
    let few: Vec<Vec<u8>> = d.tids.iter().take(6).cloned().collect();
    for t in &few {
        let i = d.ids[2];
        for p in &d.ports {
            for tok in &d.tokens {
                let (t1, tok1, p1, x) = (t.clone(), tok.clone(), *p, d.ids[3]);
                v.push((
                    q("announce_peer", t, vec![(k("id"), bencode::bytes(&i)), (k("info_hash"), bencode::bytes(&x)), (k("port"), bencode::int(*p as i128)), (k("token"), bencode::bytes(tok))]),
                    Box::new(move || Message::announce_peer_query(&ID::new(i), &ID::new(x), p1, buf(&tok1), buf(&t1))),
                ));
            }
        }
        for nl in &d.node_lists {
            let all: Vec<u8> = nl.iter().flat_map(node_bytes).collect();
            let (t1, nl1) = (t.clone(), nl.clone());
            v.push((r(t, vec![(k("id"), bencode::bytes(&i)), (k("nodes"), bencode::bytes(&all))]), Box::new(move || Message::find_nodes_resp(&ID::new(i), Nodes::Closest(nodes(&nl1)), buf(&t1)))));
            if nl.len() == 1 {
                let (t1, nl1) = (t.clone(), nl.clone());
                v.push((r(t, vec![(k("id"), bencode::bytes(&i)), (k("nodes"), bencode::bytes(&all))]), Box::new(move || Message::find_nodes_resp(&ID::new(i), Nodes::Exact(nodes(&nl1).remove(0)), buf(&t1)))));
            }
            for tok in d.tokens.iter().take(4) {
                let (t1, nl1, tok1) = (t.clone(), nl.clone(), tok.clone());
                v.push((
                    r(t, vec![(k("id"), bencode::bytes(&i)), (k("nodes"), bencode::bytes(&all)), (k("token"), bencode::bytes(tok))]),
                    Box::new(move || Message::get_peers_resp(&ID::new(i), buf(&tok1), ValuesOrNodes::Nodes { nodes: Nodes::Closest(nodes(&nl1)) }, buf(&t1))),
                ));
            }
        }
        for vl in &d.value_lists {
            for tok in &d.tokens {
                let (t1, vl1, tok1) = (t.clone(), vl.clone(), tok.clone());
                v.push((
                    r(t, vec![(k("id"), bencode::bytes(&i)), (k("token"), bencode::bytes(tok)), (k("values"), V::List(vl.iter().map(|a| V::Bytes(peer_bytes(a))).collect()))]),
                    Box::new(move || Message::get_peers_resp(&ID::new(i), buf(&tok1), ValuesOrNodes::Values { values: vl1.iter().map(|a| Peer::new(*a)).collect() }, buf(&t1))),
                ));
            }
        }
        for code in [201u32, 202, 203, 204, 0, u32::MAX] {
            for desc in ["A Generic Error Ocurred", "", "e", "\u{e9}\u{4e2d}"] {
                let t1 = t.clone();
                let e = V::List(vec![bencode::int(code as i128), bencode::s(desc)]);
                v.push((
                    bencode::dict(vec![(k("e"), e), (k("t"), bencode::bytes(t)), (k("y"), bencode::s("e"))]),
                    Box::new(move || Message::_error_resp(vec![nargun::verif::dht::Error::Code(code), nargun::verif::dht::Error::Desc(desc.to_string())], buf(&t1))),
                ));
            }
        }
    }
    v
}
/// Unknown keys other implementations put into messages.
fn extras(part: &str, kind: &str) -> Vec<(Vec<u8>, V)> {
    match (part, kind) {
        ("top", _) => vec![(k("v"), bencode::bytes(b"LT\x01\x02")), (k("ip"), bencode::bytes(&[1, 2, 3, 4, 5, 0xff])), (k("ro"), bencode::int(1)), (k("zz"), V::List(vec![bencode::int(-5), bencode::dict(vec![(k("a"), bencode::s("b"))])]))],
        (_, "ping") => vec![(k("zz"), bencode::int(7))],
        (_, "find_node") => vec![(k("want"), V::List(vec![bencode::s("n4"), bencode::s("n6")])), (k("bs"), bencode::int(1))],
        (_, "get_peers") => vec![(k("noseed"), bencode::int(1)), (k("scrape"), bencode::int(0)), (k("want"), V::List(vec![bencode::s("n4")]))],
        (_, "announce_peer") => vec![(k("implied_port"), bencode::int(0)), (k("name"), bencode::s("x")), (k("seed"), bencode::int(1))],
        (_, "r") => vec![(k("p"), bencode::int(6881)), (k("nodes6"), bencode::bytes(&[1; 38])), (k("zz"), V::List(vec![]))],
        _ => vec![],
    }
}
fn with_extras(v: &V, mask: usize) -> Option<V> {
    let V::Dict(d) = v else { return None };
    let mut top = d.clone();
    let kind = v.get("q").and_then(|q| q.as_bytes()).map(|q| String::from_utf8_lossy(q).into_owned()).unwrap_or_else(|| "r".into());
    let inner_key = if v.get("a").is_some() { "a" } else { "r" };
    let (te, ie) = (extras("top", &kind), extras("inner", &kind));
    if mask >= 1 << (te.len() + ie.len()) {
        return None;
    }
    for (i, e) in te.iter().enumerate() {
        if mask >> i & 1 == 1 {
            top.push(e.clone());
        }
    }
    for x in top.iter_mut() {
        if x.0 == inner_key.as_bytes() {
            if let V::Dict(inner) = &mut x.1 {
                for (i, e) in ie.iter().enumerate() {
                    if mask >> (te.len() + i) & 1 == 1 {
                        inner.push(e.clone());
                    }
                }
                let y = bencode::dict(inner.clone());
                x.1 = y;
            }
        }
    }
    Some(bencode::dict(top))
}

fn c18(ctx: &mut Ctx) {
    let quick = ctx.quick();
    ctx.assume("messages over boundary domains of ids, transaction ids, tokens, ports, node and peer lists; extra keys: those common implementations send");
    let ms = std::sync::Arc::new(all_messages(&dom(quick)));
    let m2 = ms.clone();
    ctx.each("encode and decode", ms.len() as u64, move |i| {
        let (want, make) = &m2[i as usize];
        let m = make();
        ensure_eq!(meaning(&m), *want, "constructor", "content of the message built");
        let bytes = m.into_bytes().map_err(|e| Fail { key: "encode".into(), msg: format!("a message cannot be encoded: {e}") })?;
        let std_bytes = bencode::encode(want);
        ensure!(bytes == std_bytes, "encoding", "encoded as {:?}, standard is {:?}", String::from_utf8_lossy(&bytes), String::from_utf8_lossy(&std_bytes));
        let d = Message::from_bytes(&bytes).map_err(|e| Fail { key: "decode".into(), msg: format!("{:?} is not decoded: {e}", String::from_utf8_lossy(&bytes)) })?;
        ensure_eq!(meaning(&d), *want, "decoding", "content of the decoded message");
        ensure_eq!(d.tid().as_ref(), want.get("t").unwrap().as_bytes().unwrap(), "tid", "transaction id");
        Ok(h(bytes))
    });
    let m2 = ms.clone();
    let masks = 1u64 << 7;
    let step = if quick { 7 } else { 1 };
    let pick: Vec<usize> = (0..ms.len()).step_by(step).collect();
    ctx.each("unknown keys", pick.len() as u64 * masks, move |i| {
        let (want, _) = &m2[pick[(i / masks) as usize]];
        let Some(v) = with_extras(want, (i % masks) as usize) else { return Ok(0) };
        let bytes = bencode::encode(&v);
        let d = Message::from_bytes(&bytes).map_err(|e| Fail { key: "decode-extra".into(), msg: format!("{:?} is not decoded: {e}", String::from_utf8_lossy(&bytes)) })?;
        ensure_eq!(meaning(&d), *want, "decoding-extra", "content of {:?}", String::from_utf8_lossy(&bytes));
        Ok(h(bytes))
    });
    // a get_peers response with peers and nodes: the peers count
    let d = dom(quick);
    let (nl, vl) = (d.node_lists.clone(), d.value_lists.clone());
    let n = nl.len() as u64;
    ctx.each("values and nodes", n * vl.len() as u64, move |i| {
        let (nl, vl) = (&nl[(i % n) as usize], &vl[(i / n) as usize]);
        let all: Vec<u8> = nl.iter().flat_map(node_bytes).collect();
        let vals = V::List(vl.iter().map(|a| V::Bytes(peer_bytes(a))).collect());
        let mk = |with_nodes: bool| {
            let mut r = vec![(k("id"), bencode::bytes(&[7; 20])), (k("token"), bencode::s("tk")), (k("values"), vals.clone())];
            if with_nodes {
                r.push((k("nodes"), bencode::bytes(&all)));
            }
            bencode::dict(vec![(k("r"), bencode::dict(r)), (k("t"), bencode::s("aa")), (k("y"), bencode::s("r"))])
        };
        let d = Message::from_bytes(&bencode::encode(&mk(true))).map_err(|e| Fail { key: "decode".into(), msg: format!("a response with values and nodes is not decoded: {e}") })?;
        ensure_eq!(meaning(&d), mk(true), "decoding-both", "content of a response with values and nodes");
        Ok(h(i))
    });
}

fn main() {
    mc::main(&[("C15", c15), ("C16", c16), ("C17", c17), ("C18", c18)]);
}

//! C06 block download against simulated peers, C07 the torrent manager against simulated peers.
use harness::mc::{self, fail, h, opts, Ch, Ctx, Fail, R};
use harness::peer::*;
use harness::sys::{Act, Call};
use harness::{ensure, ensure_eq, rt, sys};
use nargun::verif::data_structures::ID;
use nargun::verif::peers::active_peers::Peers;
use nargun::verif::torrent_manager::TorrentManager;
use nargun::verif::transcoding::metainfo::Torrent;
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddrV4;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tokio::io::AsyncWriteExt;
use tokio::net::TcpStream;
use tokio::sync::{broadcast, mpsc};
use tokio::time::Instant;

const BS: usize = 16384;
const NONE: u8 = 1;
const GOOD: u8 = 2;
const BAD: u8 = 4;
/// A block asked for is not asked for again for at least this long.
const HELD: u64 = 6_000;

#[derive(Clone, Copy)]
struct Geo {
    pl: usize,
    total: usize,
}
impl Geo {
    fn pieces(&self) -> usize {
        self.total.div_ceil(self.pl)
    }
    fn piece_len(&self, p: usize) -> usize {
        self.pl.min(self.total - p * self.pl)
    }
    fn blocks(&self, p: usize) -> usize {
        self.piece_len(p).div_ceil(BS)
    }
    fn block_len(&self, p: usize, b: usize) -> usize {
        BS.min(self.piece_len(p) - b * BS)
    }
    fn content(&self, p: usize) -> Vec<u8> {
        self.bytes(p, 0..self.piece_len(p))
    }
    fn bytes(&self, p: usize, r: std::ops::Range<usize>) -> Vec<u8> {
        let x = p * 131 + (p >> 8) * 17 + (p >> 16) * 29 + 7;
        r.map(|i| (x ^ (i * 29) ^ (i >> 8) ^ (i >> 14) * 7 ^ (i >> 22) * 5) as u8).collect()
    }
    fn block(&self, p: usize, b: usize) -> Vec<u8> {
        self.bytes(p, b * BS..b * BS + self.block_len(p, b))
    }
    fn hash(&self, p: usize) -> ID {
        ID::new(openssl::sha::sha1(&self.content(p)))
    }
}

/// A remote peer as the client should see it.
struct Side {
    c: Option<TcpStream>,
    buf: Vec<u8>,
    choked: bool,
    assigned: BTreeSet<usize>,
    /// requests to be answered, oldest first: (piece, block)
    open: Vec<(usize, usize)>,
    asked: BTreeSet<(usize, usize)>,
    last: Option<(usize, usize)>,
}
struct Dl {
    g: Geo,
    net: Net,
    side: Vec<Side>,
    /// pieces in assembly: what each block may hold
    blocks: BTreeMap<usize, Vec<u8>>,
    /// who was last asked for a block, when, and whether an answer still counts for sure
    holder: BTreeMap<(usize, usize), (usize, u64, bool)>,
    must: BTreeSet<usize>,
    /// blocks whose request was about to expire when answers were sent: they may cross with a repeated request
    late: BTreeSet<(usize, usize)>,
    t0: Instant,
    finished: u64,
    seen: u64,
}
impl Dl {
    async fn new(g: Geo, n: usize) -> Result<Dl, Fail> {
        let mut net = Net::with(n, IH, ME, g.pl, g.total as u64).await;
        let mut side = vec![];
        for i in 0..n {
            let c = net.connect(i).await?;
            side.push(Side { c: Some(c), buf: vec![], choked: true, assigned: BTreeSet::new(), open: vec![], asked: BTreeSet::new(), last: None });
        }
        // actions happen between the client's ticks, not at them
        rt::pass(Duration::from_millis(300)).await;
        Ok(Dl { g, net, side, blocks: BTreeMap::new(), holder: BTreeMap::new(), must: BTreeSet::new(), late: BTreeSet::new(), t0: Instant::now(), finished: 0, seen: 0 })
    }
    fn now(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64
    }
    /// Takes in what the client did since the last time and checks it.
    async fn absorb(&mut self) -> Result<(), Fail> {
        loop {
            rt::settle().await;
            let mut quiet = true;
            for i in 0..self.side.len() {
                for m in self.net.drain(i) {
                    quiet = false;
                    match m {
                        M::Finished(p, data) => {
                            ensure!(p < self.g.pieces() && data == self.g.content(p), "finished piece with wrong bytes", "piece {p}, {} bytes", data.len());
                            ensure!(self.blocks.get(&p).is_some_and(|v| v.iter().all(|b| b & GOOD != 0)), "piece finished that cannot be complete", "piece {p}: {:?}", self.blocks.get(&p));
                            self.net.con.abandon_piece(p);
                            self.forget(p);
                            self.finished += 1;
                        }
                        M::Disconnected | M::Unreachable => ensure!(self.side[i].c.is_none(), "peer dropped", "{m:?}"),
                        _ => (),
                    }
                }
            }
            let now = self.now();
            for i in 0..self.side.len() {
                let s = &mut self.side[i];
                let Some(c) = &mut s.c else { continue };
                let (b, eof) = read_now(c).await;
                ensure!(!eof, "connection closed by the client", "remote {i}");
                if b.is_empty() {
                    continue;
                }
                quiet = false;
                s.buf.extend(b);
                let (ms, _) = spec_parse(&s.buf);
                let used: usize = ms.iter().map(|m| m.wire().len()).sum();
                s.buf.drain(..used);
                for m in ms {
                    if let M::Request(p, b, n) = m {
                        self.request(i, p as usize, b as usize, n as usize, now)?;
                    }
                }
            }
            if quiet {
                break;
            }
        }
        self.late.clear();
        if let Some(p) = self.must.iter().next() {
            return fail("a complete piece is not reported finished", format!("piece {p}"));
        }
        Ok(())
    }
    fn request(&mut self, i: usize, p: usize, begin: usize, n: usize, now: u64) -> Result<(), Fail> {
        self.seen += 1;
        let late = begin % BS == 0 && self.late.contains(&(p, begin / BS));
        if late && self.blocks.get(&p).is_none_or(|v| v[begin / BS] & NONE == 0) {
            return Ok(());
        }
        let s = &mut self.side[i];
        ensure!(s.assigned.contains(&p), "asked for a piece that is not assigned", "remote {i}: piece {p}, assigned {:?}", s.assigned);
        ensure!(begin % BS == 0 && begin < self.g.piece_len(p), "asked for a block outside the piece", "piece {p} at {begin}");
        let b = begin / BS;
        ensure_eq!(n, self.g.block_len(p, b), "asked with a wrong length", "piece {p} block {b}");
        ensure!(!s.choked, "asked while choked", "remote {i}: piece {p} block {b}");
        let Some(v) = self.blocks.get(&p) else {
            return fail("asked for a piece that is finished", format!("piece {p}"));
        };
        ensure!(v[b] & NONE != 0, "asked for a stored block", "piece {p} block {b}");
        if let Some((r, t, _)) = self.holder.get(&(p, b)) {
            ensure!(late || now - t > HELD, "block asked for twice at a time", "piece {p} block {b}: remote {r} {} ms ago, now remote {i}", now - t);
        }
        self.holder.insert((p, b), (i, now, true));
        s.open.retain(|x| *x != (p, b));
        s.open.push((p, b));
        s.asked.insert((p, b));
        Ok(())
    }
    fn forget(&mut self, p: usize) {
        self.blocks.remove(&p);
        self.must.remove(&p);
        self.holder.retain(|k, _| k.0 != p);
        for s in &mut self.side {
            s.assigned.remove(&p);
            s.open.retain(|x| x.0 != p);
        }
    }
    async fn put(&mut self, i: usize, m: M) -> Result<(), Fail> {
        match self.side[i].c.as_mut().unwrap().write_all(&m.wire()).await {
            Ok(()) => Ok(()),
            Err(e) => fail("connection closed by the client", format!("{e}")),
        }
    }
    /// Remote `i` sends a block; the model follows.
    async fn answer(&mut self, i: usize, p: usize, b: usize, data: Vec<u8>) -> Result<(), Fail> {
        let good = data == self.g.block(p, b);
        let size = data.len() == self.g.block_len(p, b);
        self.put(i, M::Piece(p as u32, (b * BS) as u32, data)).await?;
        let now = self.now();
        self.late.extend(self.holder.iter().filter(|(_, (_, t, _))| now - t > HELD).map(|(k, _)| *k));
        let s = &mut self.side[i];
        // a request may be crossing with it
        let crossing = !s.choked && self.holder.get(&(p, b)).is_none_or(|(_, t, _)| now - t > HELD);
        let possible = size && s.assigned.contains(&p) && (crossing || s.asked.contains(&(p, b)));
        let Some(v) = self.blocks.get_mut(&p) else { return Ok(()) };
        if !possible || v[b] & NONE == 0 {
            return Ok(());
        }
        if crossing {
            self.late.insert((p, b));
        }
        let sure = matches!(self.holder.get(&(p, b)), Some((r, t, true)) if *r == i && now - t <= HELD) && v[b] == NONE && !s.choked;
        let kind = if good { GOOD } else { BAD };
        if sure {
            v[b] = kind;
        } else {
            v[b] |= kind;
        }
        s.open.retain(|x| *x != (p, b));
        s.last = Some((p, b));
        if v.iter().any(|x| *x == NONE) {
            return Ok(());
        }
        // it may be complete
        let may_none = v.iter().any(|x| x & NONE != 0);
        let may_bad = v.iter().any(|x| x & BAD != 0);
        let must_bad = v.contains(&BAD);
        if !may_none && !may_bad {
            self.must.insert(p);
        } else if may_bad {
            // it is (or may have been) thrown away: everything can be asked for again
            for x in v.iter_mut() {
                *x = if must_bad && !may_none { NONE } else { *x | NONE };
            }
            self.holder.retain(|k, _| k.0 != p);
            if must_bad && !may_none {
                for s in &mut self.side {
                    s.open.retain(|x| x.0 != p);
                }
            }
        }
        Ok(())
    }
    async fn assign(&mut self, i: usize, p: usize) -> Result<(), Fail> {
        let peer = self.net.remotes[i].peer();
        let r = self.net.con.download_piece(peer, p, self.g.hash(p)).await;
        let room = self.blocks.contains_key(&p) || self.blocks.len() < 10;
        ensure_eq!(r.is_ok(), self.side[i].c.is_some() && room, "assigning a piece", "piece {p} to remote {i}: {r:?}");
        if r.is_ok() {
            self.side[i].assigned.insert(p);
            let n = self.g.blocks(p);
            self.blocks.entry(p).or_insert_with(|| vec![NONE; n]);
        }
        Ok(())
    }
    async fn choke(&mut self, i: usize, yes: bool) -> Result<(), Fail> {
        if !yes {
            self.side[i].choked = false;
        }
        self.put(i, if yes { M::Choke } else { M::Unchoke }).await?;
        self.absorb().await?;
        if yes {
            self.side[i].choked = true;
            for v in self.holder.values_mut() {
                v.2 &= v.0 != i;
            }
        }
        Ok(())
    }
    async fn close(&mut self, i: usize) -> Result<(), Fail> {
        let s = &mut self.side[i];
        s.c = None;
        s.assigned.clear();
        s.open.clear();
        s.choked = true;
        self.absorb().await
    }
    async fn pass(&mut self, secs: u64) -> Result<(), Fail> {
        for _ in 0..secs {
            rt::pass(Duration::from_millis(998)).await;
            self.absorb().await?;
        }
        let now = self.now();
        for (p, v) in &self.blocks {
            let able: Vec<usize> = (0..self.side.len()).filter(|i| self.side[*i].c.is_some() && !self.side[*i].choked && self.side[*i].assigned.contains(p)).collect();
            if able.is_empty() {
                continue;
            }
            for b in (0..v.len()).filter(|b| v[*b] == NONE) {
                match self.holder.get(&(*p, b)) {
                    None => return fail("a missing block is not asked for", format!("piece {p} block {b}, able remotes {able:?}")),
                    Some((r, t, _)) => ensure!(secs < 9 || now - t <= 9_050, "a missing block is not asked for again", "piece {p} block {b}: last asked from remote {r} {} ms ago, able remotes {able:?}", now - t),
                }
            }
        }
        Ok(())
    }
    /// Whoever is left answers everything: every assigned piece gets finished.
    async fn finale(&mut self) -> Result<(), Fail> {
        let open: Vec<usize> = (0..self.side.len()).filter(|i| self.side[*i].c.is_some()).collect();
        for i in &open {
            if self.side[*i].choked {
                self.choke(*i, false).await?;
            }
        }
        let left = |d: &Dl| d.side.iter().flat_map(|s| s.assigned.iter().copied()).collect::<BTreeSet<usize>>();
        for _ in 0..3 {
            if left(self).is_empty() {
                return Ok(());
            }
            self.pass(9).await?;
            loop {
                let n = self.seen;
                for i in &open {
                    for (p, b) in self.side[*i].open.clone() {
                        self.answer(*i, p, b, self.g.block(p, b)).await?;
                    }
                }
                self.absorb().await?;
                rt::pass(Duration::from_secs(1)).await;
                self.absorb().await?;
                if n == self.seen {
                    break;
                }
            }
        }
        ensure!(left(self).is_empty(), "assigned pieces never finish", "{:?}: {:?}", left(self), self.blocks);
        Ok(())
    }
}
fn corrupt(mut d: Vec<u8>) -> Vec<u8> {
    let k = d.len() - 1;
    d[k] ^= 1;
    d
}
/// One thing that happens; false if it is not possible now.
async fn act(d: &mut Dl, ch: &Ch, i: usize, k: usize) -> Result<bool, Fail> {
    let g = d.g;
    if d.side[i].c.is_none() {
        return Ok(false);
    }
    let open = d.side[i].open.clone();
    match k {
        0 => {
            let c = d.side[i].choked;
            // or says the same again: nothing changes, running requests stay valid
            let again = ch.pick(2) == 1;
            let yes = c == again;
            ch.note(|| format!("remote {i} {}{}", if yes { "chokes" } else { "unchokes" }, if again { " again" } else { "" }));
            d.choke(i, yes).await?;
            return Ok(true);
        }
        1..=3 => {
            if open.is_empty() || (k == 2 && open.len() == 1) {
                return Ok(false);
            }
            let (p, b) = if k == 2 { open[open.len() - 1] } else { open[0] };
            let x = g.block(p, b);
            ch.note(|| format!("remote {i} answers piece {p} block {b}{}", if k == 3 { " with wrong bytes" } else { "" }));
            d.answer(i, p, b, if k == 3 { corrupt(x) } else { x }).await?;
        }
        4 => {
            // everything at once
            if open.len() < 2 {
                return Ok(false);
            }
            ch.note(|| format!("remote {i} answers {open:?}"));
            for (p, b) in open {
                d.answer(i, p, b, g.block(p, b)).await?;
            }
        }
        5 => {
            // the last one again, and with other bytes
            let Some((p, b)) = d.side[i].last else { return Ok(false) };
            ch.note(|| format!("remote {i} repeats piece {p} block {b}"));
            for x in [g.block(p, b), corrupt(g.block(p, b))] {
                d.answer(i, p, b, x).await?;
            }
        }
        6 => {
            ch.note(|| format!("remote {i} sends blocks nobody asked for"));
            let asked = d.side[i].asked.clone();
            for p in 0..g.pieces() {
                for b in 0..g.blocks(p) {
                    if !asked.contains(&(p, b)) {
                        d.answer(i, p, b, g.block(p, b)).await?;
                        d.answer(i, p, b, corrupt(g.block(p, b))).await?;
                    }
                }
                for b in 0..g.blocks(p) {
                    // of the right size, at no block's place
                    for off in [1, BS / 2, BS - 1] {
                        d.put(i, M::Piece(p as u32, (b * BS + off) as u32, vec![9; g.block_len(p, b)])).await?;
                    }
                }
                for (at, n) in [(1, BS - 1), (g.piece_len(p).div_ceil(BS) * BS, BS), (u32::MAX as usize, 1), (u32::MAX as usize - BS + 1, BS), (0, 0)] {
                    d.put(i, M::Piece(p as u32, at as u32, vec![9; n])).await?;
                }
            }
            d.put(i, M::Piece(g.pieces() as u32, 0, vec![9; BS])).await?;
            d.put(i, M::Piece(u32::MAX, 0, vec![9; BS])).await?;
        }
        7 => {
            if open.is_empty() {
                return Ok(false);
            }
            let (p, b) = open[0];
            ch.note(|| format!("remote {i} answers piece {p} block {b} with other sizes"));
            let mut long = g.block(p, b);
            long.push(0);
            for x in [vec![], g.block(p, b)[1..].to_vec(), long] {
                d.answer(i, p, b, x).await?;
            }
        }
        8 => {
            let Some(p) = (0..g.pieces()).find(|p| !d.side[i].assigned.contains(p)) else { return Ok(false) };
            ch.note(|| format!("piece {p} is assigned to remote {i}"));
            d.assign(i, p).await?;
        }
        9 => {
            ch.note(|| format!("remote {i} disconnects"));
            d.close(i).await?;
            return Ok(true);
        }
        _ => unreachable!(),
    }
    d.absorb().await?;
    Ok(true)
}
async fn session(ch: &Ch, g: Geo, n: usize, depth: usize, pre: usize) -> R {
    let mut d = Dl::new(g, n).await?;
    for i in 0..n {
        if pre >= 1 {
            d.assign(i, 0).await?;
        }
        if pre >= 2 {
            d.assign(i, g.pieces() - 1).await?;
        }
        if pre >= 1 {
            d.choke(i, false).await?;
        }
    }
    for _ in 0..depth {
        let k = ch.pick(3 + 10 * n);
        match k {
            0 | 1 => {
                let s = [4, 9][k];
                ch.note(|| format!("{s} s pass"));
                d.pass(s).await?;
            }
            2 => {
                let Some(p) = d.blocks.keys().next().copied() else { return Ok(0) };
                ch.note(|| format!("piece {p} is given up"));
                d.net.con.abandon_piece(p);
                d.forget(p);
                d.absorb().await?;
            }
            _ => {
                if !act(&mut d, ch, (k - 3) / 10, (k - 3) % 10).await? {
                    return Ok(0);
                }
            }
        }
    }
    d.finale().await?;
    mc::no_panic()?;
    Ok(h((d.finished, d.seen)))
}
fn c06(ctx: &mut Ctx) {
    ctx.assume("a request counts as running for 6 s and must be repeated after 9 s; the owner gives a finished piece up, as the torrent manager does");
    let geos = [
        Geo { pl: 2 * BS, total: 2 * 2 * BS + BS + 5 },
        Geo { pl: BS, total: 2 * BS + 1 },
        Geo { pl: BS + 9, total: BS + 9 },
    ];
    for (k, g) in geos.into_iter().enumerate() {
        for pre in 0..3 {
            if pre == 0 && k > 0 {
                continue;
            }
            let dep = ctx.by(if k == 0 && pre > 0 { 4 } else { 3 }, if k == 0 && pre > 0 { 5 } else { 5 });
            ctx.explore(&format!("one-remote-{k}-{pre}"), opts(), move |ch| rt::run(rt::RtOpts::default(), async { session(ch, g, 1, dep, pre).await }));
        }
    }
    for pre in 1..3 {
        let dep = ctx.by(3, 4);
        let g = geos[pre - 1];
        ctx.explore(&format!("two-remotes-{pre}"), opts(), move |ch| rt::run(rt::RtOpts::default(), async { session(ch, g, 2, dep, pre).await }));
    }
    // the order in which the client's tasks run
    for (n, dep, dv) in [(1, ctx.by(2, 3), 1), (2, ctx.by(1, 2), 1), (2, 0, ctx.by(1, 2))] {
        ctx.explore(&format!("task-order-{n}-{dep}-{dv}"), opts().dev(dv), move |ch| rt::run(rt::RtOpts { sched: true, select: true, preempt: true, ..Default::default() }, async { session(ch, geos[1], n, dep, 1).await }));
    }
    // at most ten pieces in assembly
    let dep = ctx.by(2, 3);
    ctx.explore("ten-pieces", opts(), move |ch| rt::run(rt::RtOpts::default(), async {
        let g = Geo { pl: 10, total: 130 };
        let mut d = Dl::new(g, 1).await?;
        let n = 9 + ch.pick(3);
        for p in 0..n {
            d.assign(0, p).await?;
        }
        if ch.pick(2) == 1 {
            d.choke(0, false).await?;
        }
        for _ in 0..dep {
            let k = ch.pick(11);
            if k == 10 {
                d.net.con.abandon_piece(3);
                d.forget(3);
                d.absorb().await?;
            } else if !act(&mut d, ch, 0, k).await? {
                return Ok(0);
            }
        }
        for p in 0..g.pieces() {
            d.assign(0, p).await?;
        }
        d.finale().await?;
        Ok(d.seen)
    }));
    // pieces of many blocks
    ctx.explore("large-piece", opts(), move |ch| {
        let blocks = [129usize, 257, 1026, 2050][ch.pick(4)];
        let newest = ch.pick(2) == 1;
        // the block that is wrong the first time, if any
        let wrong = [None, Some(0), Some(blocks - 1), Some(128)][ch.pick(4)];
        ch.note(|| format!("{blocks} blocks, newest first {newest}, wrong {wrong:?}"));
        let g = Geo { pl: blocks * BS, total: (blocks - 1) * BS + 77 };
        rt::run(rt::RtOpts { poll_limit: 50_000_000, ..Default::default() }, async {
            let mut d = Dl::new(g, 1).await?;
            d.assign(0, 0).await?;
            d.choke(0, false).await?;
            let mut wrong = wrong;
            for _ in 0..2 * blocks {
                if d.side[0].assigned.is_empty() {
                    break;
                }
                let mut o = d.side[0].open.clone();
                ensure!(!o.is_empty(), "nothing asked for although blocks are missing", "{} missing", d.blocks[&0].iter().filter(|b| **b == NONE).count());
                if newest {
                    o.reverse();
                }
                for (p, b) in o {
                    let x = g.block(p, b);
                    let x = if wrong == Some(b) { wrong = None; corrupt(x) } else { x };
                    d.answer(0, p, b, x).await?;
                }
                d.absorb().await?;
            }
            ensure_eq!(d.finished, 1, "pieces finished", "count");
            mc::no_panic()?;
            Ok(d.seen)
        })
    });
    // pieces far into a torrent: no confusion with those whose index is alike
    ctx.explore("far-pieces", opts(), move |ch| {
        let at = [256usize, 32_768, 65_536, 1 << 20, 1 << 24][ch.pick(5)];
        let off = ch.pick(2);
        let ps = if ch.pick(2) == 1 { vec![at + off, off] } else { vec![off, at + off] };
        let both = ch.pick(3);
        ch.note(|| format!("pieces {ps:?}, assigned {both}"));
        rt::run(rt::RtOpts::default(), async {
            let g = Geo { pl: 40, total: 40 * (at + 2) - 3 };
            let mut d = Dl::new(g, 1).await?;
            for p in ps.iter().take(if both == 0 { 1 } else { 2 }) {
                d.assign(0, *p).await?;
            }
            d.choke(0, false).await?;
            d.absorb().await?;
            // the other one's data is of no use
            d.answer(0, ps[1], 0, g.block(ps[1], 0)).await?;
            d.absorb().await?;
            if both == 2 {
                d.answer(0, ps[0], 0, corrupt(g.block(ps[0], 0))).await?;
                d.absorb().await?;
            }
            d.finale().await?;
            ensure_eq!(d.finished, if both == 0 { 1 } else { 2 }, "pieces finished", "count");
            mc::no_panic()?;
            Ok(d.seen)
        })
    });
    // more blocks than are asked for at a time, in different orders and batches
    ctx.explore("window", opts(), move |ch| {
        let blocks = [16usize, 17, 33, 48][ch.pick(4)];
        let batch = [1usize, 5, 16][ch.pick(3)];
        let newest = ch.pick(2) == 1;
        let wrong = ch.pick(3);
        let two = ch.pick(2) == 1;
        let g = Geo { pl: blocks * BS, total: blocks * BS + (blocks - 1) * BS + 77 };
        ch.note(|| format!("{blocks} blocks in batches of {batch}, newest first {newest}, wrong {wrong}, two pieces {two}"));
        rt::run(rt::RtOpts { poll_limit: 2_000_000, ..Default::default() }, async {
            let mut d = Dl::new(g, 1).await?;
            d.assign(0, 0).await?;
            if two {
                d.assign(0, 1).await?;
            }
            d.choke(0, false).await?;
            let mut bad = wrong;
            for _ in 0..400 {
                if d.side[0].assigned.is_empty() {
                    break;
                }
                let mut o = d.side[0].open.clone();
                ensure!(!o.is_empty(), "nothing asked for although blocks are missing", "{:?}", d.blocks);
                if newest {
                    o.reverse();
                }
                for (p, b) in o.into_iter().take(batch) {
                    let x = g.block(p, b);
                    let x = if bad > 0 { bad -= 1; corrupt(x) } else { x };
                    d.answer(0, p, b, x).await?;
                }
                d.absorb().await?;
            }
            ensure_eq!(d.finished, 1 + two as u64, "pieces finished", "count");
            mc::no_panic()?;
            Ok(d.seen)
        })
    });
}


// ------------------------------------------------------------------ C07: the torrent manager
const FROM: &str = "/home/gvelesa/rust/narpath";
fn torrent(g: Geo) -> (Torrent, [u8; 20]) {
    let mut info = format!("d6:lengthi{}e4:name4:data12:piece lengthi{}e6:pieces{}:", g.total, g.pl, 20 * g.pieces()).into_bytes();
    for p in 0..g.pieces() {
        info.extend(openssl::sha::sha1(&g.content(p)));
    }
    info.push(b'e');
    let ih = openssl::sha::sha1(&info);
    let mut b = b"d8:announce10:http://t/a4:info".to_vec();
    b.extend(info);
    b.push(b'e');
    (Torrent::from_buf(&b).expect("torrent"), ih)
}
struct Far {
    r: Remote,
    c: Option<TcpStream>,
    buf: Vec<u8>,
    /// it accepts connections and completes the handshake
    answers: bool,
    choking: bool,
    have: BTreeSet<usize>,
    /// sent a choke: requests sent before it is processed may still arrive
    open: Vec<usize>,
    connects: u32,
    /// announced a piece that was not stored at that time
    useful: bool,
    /// was told so
    interested: bool,
}
/// What each remote works on, as the manager sees it.
type Work = Vec<BTreeSet<usize>>;
struct World {
    g: Geo,
    peers: Peers,
    far: Vec<Far>,
    stored: BTreeSet<usize>,
    /// every assignment that explains what was seen so far
    works: BTreeSet<Work>,
    /// who was last asked for a piece and when
    hold: BTreeMap<usize, (usize, i64)>,
    t0: Instant,
    next: u64,
    dir: String,
    max_con: usize,
    _dht: mpsc::Receiver<SocketAddrV4>,
    /// pieces the client counts as stored; the word that all are
    count: Arc<AtomicU64>,
    fin: broadcast::Receiver<()>,
}
impl World {
    async fn new(g: Geo, known: usize, n: usize) -> World {
        let (t, ih) = torrent(g);
        let dir = sys::scratch();
        sys::with(|e| e.rewrite.push((FROM.to_string(), dir.clone())));
        let peers = Peers::new(&ID::new(ih));
        let mut far = vec![];
        for i in 0..n {
            let mut r = Remote::new(peer_addr(i as u8 + 1)).await;
            r.ih = ih;
            far.push(Far { r, c: None, buf: vec![], answers: true, choking: true, have: BTreeSet::new(), open: vec![], connects: 0, useful: false, interested: false });
        }
        for f in far.iter().take(known) {
            peers.insert(f.r.peer());
        }
        let (dtx, dht) = mpsc::channel(64);
        let t0 = Instant::now();
        let count = Arc::new(AtomicU64::new(0));
        let (ftx, fin) = broadcast::channel(4);
        TorrentManager::spawn(t, ID::new(ME), peers.clone(), dtx, count.clone(), ftx);
        World { g, peers, works: BTreeSet::from([vec![BTreeSet::new(); n]]), far, stored: BTreeSet::new(), hold: BTreeMap::new(), t0, next: 1, dir, max_con: 0, _dht: dht, count, fin }
    }
    fn now(&self) -> i64 {
        self.t0.elapsed().as_millis() as i64
    }
    fn connected(&self) -> usize {
        self.far.iter().filter(|f| f.c.is_some()).count()
    }
    /// One second: the manager's tick lies in the middle of it.
    async fn tick(&mut self) -> Result<(), Fail> {
        tokio::time::sleep_until(self.t0 + Duration::from_millis(self.next * 1000 + 300)).await;
        self.next += 1;
        self.model_tick();
        self.absorb().await?;
        // a piece some unchoking peer works on has been asked for
        let (far, hold) = (&self.far, &self.hold);
        let why = self.works.iter().next().cloned();
        self.works.retain(|w| (0..far.len()).all(|i| far[i].c.is_none() || far[i].choking || w[i].iter().all(|p| hold.contains_key(p))));
        ensure!(!self.works.is_empty(), "no selection of pieces explains the requests", "asked for (piece: remote, at): {:?}; one expected assignment: {why:?}; stored {:?}", self.hold, self.stored);
        Ok(())
    }
    async fn ticks(&mut self, n: usize) -> Result<(), Fail> {
        for _ in 0..n {
            self.tick().await?;
        }
        Ok(())
    }
    /// New assignments: a piece nobody works on first, then the least loaded peer, then the lowest piece.
    fn model_tick(&mut self) {
        let mut all = BTreeSet::new();
        for w in std::mem::take(&mut self.works) {
            let active: BTreeSet<usize> = w.iter().flatten().copied().collect();
            let room = 9usize.saturating_sub(active.len());
            let mut level = BTreeSet::from([w]);
            for _ in 0..room {
                let mut next = BTreeSet::new();
                for w in level {
                    let cand = (0..3).flat_map(|n| (0..4).map(move |l| (n, l))).find_map(|(n, l)| {
                        (0..self.g.pieces()).filter(|p| !self.stored.contains(p) && w.iter().filter(|x| x.contains(p)).count() == n).find_map(|p| {
                            let v: Vec<usize> = (0..self.far.len()).filter(|i| self.far[*i].c.is_some() && !self.far[*i].choking && self.far[*i].have.contains(&p) && w[*i].len() == l && !w[*i].contains(&p)).collect();
                            (!v.is_empty()).then_some((p, v))
                        })
                    });
                    match cand {
                        None => {
                            next.insert(w);
                        }
                        Some((p, v)) => {
                            for i in v {
                                let mut w = w.clone();
                                w[i].insert(p);
                                next.insert(w);
                            }
                        }
                    }
                }
                level = next;
            }
            all.extend(level);
        }
        self.works = all;
    }
    async fn absorb(&mut self) -> Result<(), Fail> {
        loop {
            rt::settle().await;
            let mut quiet = true;
            for i in 0..self.far.len() {
                let f = &mut self.far[i];
                if f.answers {
                    if let Some(mut c) = f.r.try_accept().await {
                        ensure!(f.c.is_none(), "second connection to a connected peer", "remote {i}");
                        f.r.shake(&mut c).await?;
                        f.c = Some(c);
                        f.buf.clear();
                        f.choking = true;
                        f.have.clear();
                        f.open.clear();
                        f.connects += 1;
                        f.useful = false;
                        f.interested = false;
                        quiet = false;
                    }
                }
            }
            let k = self.connected();
            self.max_con = self.max_con.max(k);
            ensure!(k <= 10, "more than ten connections", "{k}");
            for i in 0..self.far.len() {
                let f = &mut self.far[i];
                let Some(c) = &mut f.c else { continue };
                let (b, eof) = read_now(c).await;
                ensure!(!eof, "connection closed by the client", "remote {i}");
                if b.is_empty() {
                    continue;
                }
                quiet = false;
                f.buf.extend(b);
                let (ms, _) = spec_parse(&f.buf);
                let used: usize = ms.iter().map(|m| m.wire().len()).sum();
                f.buf.drain(..used);
                for m in ms {
                    match m {
                        M::Request(p, b, n) => self.request(i, p as usize, b as usize, n as usize)?,
                        M::Interested => self.far[i].interested = true,
                        M::NotInterested => self.far[i].interested = false,
                        _ => (),
                    }
                }
            }
            if quiet {
                break;
            }
        }
        // a peer that is never told would never unchoke
        for (i, f) in self.far.iter_mut().enumerate().filter(|(_, f)| f.c.is_some()) {
            f.useful |= f.have.iter().any(|p| !self.stored.contains(p));
            let wants = f.have.iter().any(|p| !self.stored.contains(p));
            ensure!(!wants || f.interested, "a peer with missing pieces is not told of the interest", "remote {i} has {:?}, stored are {:?}", f.have, self.stored);
            ensure!(f.useful || !f.interested, "interest in a peer that has nothing of use", "remote {i} has {:?}, stored are {:?}", f.have, self.stored);
        }
        Ok(())
    }
    fn request(&mut self, i: usize, p: usize, begin: usize, n: usize) -> Result<(), Fail> {
        let now = self.now();
        let f = &mut self.far[i];
        ensure!(p < self.g.pieces() && begin == 0 && n == self.g.piece_len(p), "asked for a block that does not exist", "piece {p} at {begin}, {n} bytes");
        ensure!(!f.choking, "asked while choked", "remote {i}: piece {p}");
        ensure!(f.have.contains(&p), "asked a peer for a piece it did not announce", "remote {i}: piece {p}, announced {:?}", f.have);
        ensure!(!self.stored.contains(&p), "asked for a stored piece", "piece {p}");
        if let Some((r, t)) = self.hold.get(&p) {
            ensure!(now - t > HELD as i64, "piece asked for twice at a time", "piece {p}: remote {r} {} ms ago, now remote {i}", now - t);
        }
        self.hold.insert(p, (i, now));
        f.open.retain(|x| *x != p);
        f.open.push(p);
        let why = self.works.iter().next().cloned();
        self.works.retain(|w| w[i].contains(&p));
        ensure!(!self.works.is_empty(), "no selection of pieces explains the requests", "piece {p} asked from remote {i}; one expected assignment: {why:?}; stored {:?}", self.stored);
        let busy: BTreeSet<usize> = self.far.iter().flat_map(|f| f.open.iter().copied()).collect();
        ensure!(busy.len() <= 9, "more than nine pieces in progress", "{busy:?}");
        ensure!(self.far[i].open.len() <= 4, "more than four pieces on one peer", "{:?}", self.far[i].open);
        Ok(())
    }
    async fn send(&mut self, i: usize, m: M) -> Result<(), Fail> {
        self.send_raw(i, m.wire()).await
    }
    async fn send_raw(&mut self, i: usize, b: Vec<u8>) -> Result<(), Fail> {
        match self.far[i].c.as_mut().unwrap().write_all(&b).await {
            Ok(()) => Ok(()),
            Err(e) => fail("connection closed by the client", format!("{e}")),
        }
    }
    async fn choke(&mut self, i: usize, yes: bool) -> Result<(), Fail> {
        if !yes {
            self.far[i].choking = false;
        }
        self.send(i, if yes { M::Choke } else { M::Unchoke }).await?;
        self.absorb().await?;
        if yes {
            self.far[i].choking = true;
        }
        Ok(())
    }
    async fn have(&mut self, i: usize, p: usize) -> Result<(), Fail> {
        self.send(i, M::Have(p as u32)).await?;
        self.far[i].have.insert(p);
        self.absorb().await
    }
    fn bits(&self, v: &BTreeSet<usize>) -> Vec<u8> {
        let mut b = vec![0u8; self.g.pieces().div_ceil(8)];
        for p in v {
            b[p / 8] |= 0x80 >> (p % 8);
        }
        b
    }
    async fn all(&mut self, i: usize) -> Result<(), Fail> {
        let all: BTreeSet<usize> = (0..self.g.pieces()).collect();
        if self.far[i].have.is_empty() {
            let b = self.bits(&all);
            self.send(i, M::Bitfield(b)).await?;
        } else {
            for p in &all {
                self.send(i, M::Have(*p as u32)).await?;
            }
        }
        self.far[i].have = all;
        self.absorb().await
    }
    async fn answer(&mut self, i: usize, p: usize, good: bool) -> Result<(), Fail> {
        let x = self.g.content(p);
        let x = if good { x } else { corrupt(x) };
        self.send(i, M::Piece(p as u32, 0, x)).await?;
        self.far[i].open.retain(|q| *q != p);
        // an answer after somebody else was asked, or too late, may or may not count
        match self.hold.get(&p) {
            Some((r, t)) if *r == i && self.now() - t <= HELD as i64 => (),
            _ => return fail("harness", "an uncertain answer"),
        }
        self.hold.remove(&p);
        if good {
            self.stored.insert(p);
            for f in &mut self.far {
                f.open.retain(|q| *q != p);
            }
            self.works = std::mem::take(&mut self.works).into_iter().map(|mut w| {
                for x in &mut w {
                    x.remove(&p);
                }
                w
            }).collect();
        }
        Ok(())
    }
    /// Requests of remote `i` that are certainly still good to answer.
    fn fresh(&self, i: usize) -> Vec<usize> {
        self.far[i].open.iter().copied().filter(|p| self.hold.get(p).is_some_and(|(r, t)| *r == i && self.now() - t <= HELD as i64)).collect()
    }
    async fn drop_con(&mut self, i: usize) -> Result<(), Fail> {
        self.far[i].c = None;
        self.far[i].open.clear();
        let (mut gone, mut unclear) = (vec![], vec![]);
        self.works = std::mem::take(&mut self.works).into_iter().map(|mut w| {
            w[i].clear();
            w
        }).collect();
        for p in self.hold.keys() {
            // nobody works on it any more: given up
            let n = self.works.iter().filter(|w| w.iter().any(|x| x.contains(p))).count();
            if n == 0 {
                gone.push(*p);
            } else if n < self.works.len() {
                // depends on the assignment: it may be asked for again at any time
                unclear.push(*p);
            }
        }
        for p in gone {
            self.hold.remove(&p);
        }
        for p in unclear {
            self.hold.insert(p, (i, -60_000));
        }
        self.absorb().await
    }
    fn on_disk(&self) -> Vec<u8> {
        // (looking is not part of what the client does)
        let roots = sys::with(|e| std::mem::take(&mut e.roots)).unwrap_or_default();
        let mut v = std::fs::read(format!("{}/data", self.dir)).unwrap_or_default();
        sys::with(|e| e.roots = roots);
        v.resize(self.g.total, 0);
        v
    }
    fn check_disk(&self) -> Result<(), Fail> {
        let d = self.on_disk();
        for p in &self.stored {
            ensure!(d[p * self.g.pl..][..self.g.piece_len(*p)] == self.g.content(*p)[..], "a finished piece is not stored", "piece {p}");
        }
        Ok(())
    }
    /// Every peer comes back, offers everything and answers: the download completes.
    async fn finale(&mut self) -> Result<(), Fail> {
        for i in 0..self.far.len() {
            if !self.far[i].answers {
                self.far[i].answers = true;
                self.far[i].r.listen().await;
            }
        }
        let left = |w: &World| w.g.pieces() - w.stored.len();
        for _ in 0..60 + self.g.pieces() {
            let done = left(self) == 0;
            ensure!(done || self.fin.is_empty(), "completion reported too early", "{} of {} pieces stored", self.stored.len(), self.g.pieces());
            self.tick().await?;
            for i in 0..self.far.len() {
                if self.far[i].c.is_none() {
                    continue;
                }
                if self.far[i].have.len() < self.g.pieces() {
                    self.all(i).await?;
                }
                if self.far[i].choking {
                    self.choke(i, false).await?;
                }
                for p in self.fresh(i) {
                    if self.fresh(i).contains(&p) {
                        self.answer(i, p, true).await?;
                        self.absorb().await?;
                    }
                }
            }
            if left(self) == 0 {
                break;
            }
        }
        ensure!(left(self) == 0, "the download never completes", "stored {:?} of {}; connected {:?}; hold {:?}", self.stored, self.g.pieces(), self.far.iter().map(|f| f.c.is_some()).collect::<Vec<_>>(), self.hold);
        self.ticks(2).await?;
        self.check_disk()?;
        let n = self.g.pieces();
        ensure!(self.count.load(Ordering::Relaxed) == n as u64, "stored pieces miscounted", "{} counted of {n}", self.count.load(Ordering::Relaxed));
        ensure!(self.fin.len() == 1, "completion not reported once", "{} times after the last of {n} pieces", self.fin.len());
        let want = self.far.len().min(10);
        ensure!(self.connected() == want, "a known peer is not connected although there is room", "{} of {want}", self.connected());
        mc::no_panic()
    }
    fn key(&self) -> u64 {
        let now = self.now();
        h((
            &self.stored,
            &self.works,
            self.hold.iter().map(|(p, (i, t))| (*p, *i, (now - t) / 500)).collect::<Vec<_>>(),
            self.far.iter().map(|f| (f.c.is_some(), f.answers, f.choking, &f.have, &f.open)).collect::<Vec<_>>(),
        ))
    }
}
const REMOTE_ACTIONS: usize = 10;
async fn move_on(w: &mut World, ch: &Ch, i: usize, k: usize) -> Result<bool, Fail> {
    let n = w.g.pieces();
    if w.far[i].c.is_none() && k != 8 {
        return Ok(false);
    }
    match k {
        0 => {
            let c = w.far[i].choking;
            ch.note(|| format!("remote {i} {}", if c { "unchokes" } else { "chokes" }));
            w.choke(i, !c).await?;
        }
        1 | 2 => {
            let mut missing: Vec<usize> = (0..n).filter(|p| !w.far[i].have.contains(p)).collect();
            if k == 2 {
                if missing.len() < 2 {
                    return Ok(false);
                }
                missing.reverse();
            }
            let Some(p) = missing.first().copied() else { return Ok(false) };
            ch.note(|| format!("remote {i} has piece {p}"));
            w.have(i, p).await?;
        }
        3 => {
            if w.far[i].have.len() == n {
                return Ok(false);
            }
            ch.note(|| format!("remote {i} has everything"));
            w.all(i).await?;
        }
        4 => {
            ch.note(|| format!("remote {i} sends bitfields that do not count"));
            let l = n.div_ceil(8);
            let mut bad = vec![vec![], vec![0xff; l + 1], vec![0xff; l.saturating_sub(1)]];
            if n % 8 > 0 {
                bad.push(vec![0xff; l]);
                let mut x = vec![0; l];
                x[l - 1] = 1;
                bad.push(x);
            }
            if !w.far[i].have.is_empty() {
                bad.push(w.bits(&(0..n).collect()));
                bad.push(vec![0; l]);
                bad.push(w.bits(&BTreeSet::from([n - 1])));
            } else {
                bad.push(vec![0; l]);
            }
            for b in bad {
                w.send(i, M::Bitfield(b)).await?;
            }
            w.absorb().await?;
        }
        5 => {
            let o = w.fresh(i);
            if o.is_empty() {
                return Ok(false);
            }
            ch.note(|| format!("remote {i} answers {o:?}"));
            for p in o {
                w.answer(i, p, true).await?;
            }
            w.absorb().await?;
            w.check_disk()?;
        }
        6 => {
            let Some(p) = w.fresh(i).first().copied() else { return Ok(false) };
            ch.note(|| format!("remote {i} answers {p} with wrong bytes"));
            w.answer(i, p, false).await?;
            w.absorb().await?;
        }
        7 | 8 => {
            let f = &mut w.far[i];
            if k == 8 {
                f.answers = !f.answers;
                let up = f.answers;
                ch.note(|| format!("remote {i} {}", if up { "can be reached again" } else { "disconnects and cannot be reached" }));
                if up {
                    f.r.listen().await;
                    return Ok(true);
                }
                f.r.l = None;
                if f.c.is_none() {
                    return Ok(true);
                }
            } else {
                ch.note(|| format!("remote {i} disconnects"));
            }
            w.drop_con(i).await?;
        }
        9 => {
            ch.note(|| format!("remote {i} sends things that change nothing"));
            for p in w.far[i].have.clone() {
                w.send(i, M::Have(p as u32)).await?;
            }
            let spare = (n.div_ceil(8) * 8) as u32;
            for m in [M::Have(n as u32), M::Have(spare - 1).max_have(n), M::Have(spare), M::Have(u32::MAX), M::Request(0, 0, 16384), M::Request(u32::MAX, 5, u32::MAX), M::Cancel(0, 0, 16384), M::Interested, M::KeepAlive, M::NotInterested, M::Port(1234)] {
                w.send(i, m).await?;
            }
            w.send_raw(i, raw(77, &[1, 2, 3])).await?;
            w.absorb().await?;
        }
        _ => unreachable!(),
    }
    Ok(true)
}
trait MaxHave {
    fn max_have(self, n: usize) -> M;
}
impl MaxHave for M {
    /// A have that is certainly out of range.
    fn max_have(self, n: usize) -> M {
        match self {
            M::Have(x) => M::Have(x.max(n as u32)),
            m => m,
        }
    }
}
async fn manager_history(ch: &Ch, pieces: usize, n: usize, depth: usize, pre: usize, prune: bool) -> R {
    let g = Geo { pl: 64, total: 64 * pieces - 7 };
    let mut w = World::new(g, n, n).await;
    w.tick().await?;
    ensure!(w.connected() == n, "a known peer is not connected although there is room", "{} of {n}", w.connected());
    if pre >= 1 {
        for i in 0..n {
            w.all(i).await?;
        }
    }
    if pre >= 2 {
        for i in 0..n {
            w.choke(i, false).await?;
        }
        w.tick().await?;
    }
    for d in 0..depth {
        if prune && !ch.visit(w.key(), (depth - d) as u32) {
            return Ok(1);
        }
        let k = ch.pick(2 + REMOTE_ACTIONS * n);
        if k < 2 {
            let s = [1, 8][k];
            ch.note(|| format!("{s} s pass"));
            w.ticks(s).await?;
        } else if !move_on(&mut w, ch, (k - 2) / REMOTE_ACTIONS, (k - 2) % REMOTE_ACTIONS).await? {
            return Ok(0);
        }
    }
    let r = w.key();
    w.finale().await?;
    Ok(r)
}
fn c07(ctx: &mut Ctx) {
    ctx.assume("pieces of one block; the download directory is redirected into a scratch directory");
    for (pieces, n, pre, depth) in [(12, 1, 0, ctx.by(4, 6)), (12, 1, 2, ctx.by(4, 6)), (4, 2, 2, ctx.by(3, 4)), (9, 2, 2, ctx.by(3, 4)), (3, 3, 1, ctx.by(2, 3))] {
        ctx.explore(&format!("histories-{pieces}-pieces-{n}-remotes-{pre}"), opts(), move |ch| rt::run(rt::RtOpts::default(), async { manager_history(ch, pieces, n, depth, pre, false).await }));
    }
    // every distribution of pieces over choking and unchoking peers
    for (pieces, n) in [(3usize, 2usize), (2, 3)] {
        ctx.explore(&format!("availability-{pieces}-{n}"), opts(), move |ch| rt::run(rt::RtOpts::default(), async {
            let g = Geo { pl: 64, total: 64 * pieces };
            let mut w = World::new(g, n, n).await;
            w.tick().await?;
            let mut choke = vec![];
            for i in 0..n {
                let set = ch.pick(1 << pieces);
                choke.push(ch.pick(2) == 1);
                ch.note(|| format!("remote {i} has {set:b}, choking {}", choke[i]));
                let set: BTreeSet<usize> = (0..pieces).filter(|p| set >> p & 1 == 1).collect();
                let b = w.bits(&set);
                w.send(i, M::Bitfield(b)).await?;
                w.far[i].have = set;
                w.absorb().await?;
                if !choke[i] {
                    w.choke(i, false).await?;
                }
            }
            w.ticks(2).await?;
            // one piece arrives, one peer leaves for good
            for i in 0..n {
                if let Some(p) = w.fresh(i).first().copied() {
                    w.answer(i, p, true).await?;
                    w.absorb().await?;
                    break;
                }
            }
            w.tick().await?;
            let gone = ch.pick(n + 1);
            if gone < n {
                w.far[gone].answers = false;
                w.far[gone].r.l = None;
                w.drop_con(gone).await?;
                w.ticks(2).await?;
            }
            for i in 0..n {
                if choke[i] && gone != i {
                    w.choke(i, false).await?;
                }
            }
            w.ticks(9).await?;
            let r = w.key();
            w.finale().await?;
            Ok(r)
        }));
    }
    // whole downloads of every number of pieces, of every length of the last one
    let counts: Vec<usize> = ctx.by((1..=18).chain([32, 33, 64, 65]).collect(), (1..=70).chain([127, 128, 129, 255, 256, 257]).collect());
    let nc = counts.len();
    ctx.explore("numbers-of-pieces", opts(), move |ch| {
        let (p, n, cut) = (counts[ch.pick(nc)], 1 + ch.pick(2), [0, 1, 8, 63][ch.pick(4)]);
        ch.note(|| format!("{p} pieces, the last one {cut} bytes shorter, {n} remotes"));
        rt::run(rt::RtOpts::default(), async {
            let mut w = World::new(Geo { pl: 64, total: 64 * p - cut }, n, n).await;
            w.finale().await?;
            Ok(w.key())
        })
    });
    // so many pieces that a bitfield is the longest message of all
    let many: Vec<usize> = ctx.by(vec![132_064, 140_001], vec![131_072, 132_064, 140_001, 200_000]);
    let lens: Vec<(usize, usize)> = ctx.by(vec![(1, 0)], vec![(1, 0), (4, 3)]);
    ctx.explore("very-many-pieces", opts(), move |ch| {
        let n = many[ch.pick(many.len())];
        let (pl, cut) = lens[ch.pick(lens.len())];
        let whole = ch.pick(2) == 1;
        ch.note(|| format!("{n} pieces of {pl}, the last one {cut} bytes shorter"));
        rt::run(rt::RtOpts::default(), async {
            let mut w = World::new(Geo { pl, total: pl * n - cut }, 1, 1).await;
            w.ticks(2).await?;
            ensure!(w.far[0].c.is_some(), "a known peer is not connected although there is room", "");
            let have: BTreeSet<usize> = if whole { (0..n).collect() } else { BTreeSet::from([n - 9, n - 8, n - 1]) };
            let b = w.bits(&have);
            w.send(0, M::Bitfield(b)).await?;
            w.far[0].have = have;
            w.absorb().await?;
            w.choke(0, false).await?;
            for _ in 0..2 {
                w.tick().await?;
                for p in w.fresh(0) {
                    w.answer(0, p, true).await?;
                    w.absorb().await?;
                }
            }
            ensure_eq!(w.stored.iter().copied().collect::<Vec<_>>(), if whole { (0..8).collect::<Vec<_>>() } else { vec![n - 9, n - 8, n - 1] }, "unfinished", "pieces stored");
            w.check_disk()?;
            Ok(h((n, whole, w.count.load(Ordering::Relaxed))))
        })
    });
    // more pieces on offer than may be in progress, anywhere in a long torrent
    let deep = ctx.by(false, true);
    ctx.explore("far-pieces", opts(), move |ch| {
        let n = [80usize, 300, 600][ch.pick(if deep { 3 } else { 2 })];
        let at = [0, 8, 57, 60, 64, 66, 121, 128, 247, 256, 280, 505, 512][ch.pick(13)];
        if at + 15 > n {
            return Ok(0);
        }
        let apart = ch.pick(2) == 1;
        let leave = ch.pick(2) == 1;
        ch.note(|| format!("{n} pieces, {} of the pieces from {at} per remote, one leaves: {leave}", if apart { "five" } else { "fifteen" }));
        rt::run(rt::RtOpts { poll_limit: 2_000_000, ..Default::default() }, async {
            let mut w = World::new(Geo { pl: 64, total: 64 * n - 3 }, 3, 3).await;
            w.ticks(2).await?;
            for i in 0..3 {
                let set: BTreeSet<usize> = if apart { (at + 5 * i..at + 5 * i + 5).collect() } else { (at..at + 15).collect() };
                let b = w.bits(&set);
                w.send(i, M::Bitfield(b)).await?;
                w.far[i].have = set;
                w.absorb().await?;
                w.choke(i, false).await?;
            }
            w.ticks(3).await?;
            let gone = if leave {
                w.far[0].answers = false;
                w.far[0].r.l = None;
                w.drop_con(0).await?;
                w.ticks(2).await?;
                1
            } else {
                0
            };
            for _ in 0..40 {
                for i in gone..3 {
                    if let Some(p) = w.fresh(i).first().copied() {
                        w.answer(i, p, true).await?;
                        w.absorb().await?;
                    }
                }
                w.tick().await?;
            }
            let want: BTreeSet<usize> = (gone..3).flat_map(|i| w.far[i].have.iter().copied()).collect();
            ensure!(w.stored == want, "an announced piece is never fetched", "stored {:?} of {want:?}", w.stored);
            w.check_disk()?;
            mc::no_panic()?;
            Ok(w.key())
        })
    });
    let d = ctx.by(3, 5);
    ctx.explore("connections", opts(), move |ch| rt::run(rt::RtOpts::default(), async { connections(ch, d).await }));
    ctx.explore("stalled-remote", opts(), move |ch| rt::run(rt::RtOpts::default(), async { stalled(ch).await }));
    ctx.explore("failing-writes", opts().dev(ctx.by(2, 3)), move |ch| rt::run(rt::RtOpts::default(), async { failing_writes(ch).await }));
    ctx.explore("many-failing-writes", opts(), move |ch| rt::run(rt::RtOpts::default(), async { many_failing_writes(ch).await }));
    ctx.explore("three-per-piece", opts(), move |ch| rt::run(rt::RtOpts::default(), async { rotation(ch).await }));
    for (n, d, dv) in [(1, ctx.by(1, 3), 1), (2, ctx.by(1, 2), 1)] {
        ctx.explore(&format!("task-order-{n}"), opts().dev(dv), move |ch| rt::run(rt::RtOpts { sched: true, select: true, preempt: true, ..Default::default() }, async { manager_history(ch, 3, n, d, 2, false).await }));
    }
    let d = ctx.by(5, 8);
    ctx.explore("deep-one-remote", opts(), move |ch| rt::run(rt::RtOpts::default(), async { manager_history(ch, 6, 1, d, 2, true).await }));
    let d = ctx.by(4, 7);
    ctx.explore("deep-from-nothing", opts(), move |ch| rt::run(rt::RtOpts::default(), async { manager_history(ch, 3, 2, d, 0, true).await }));
    let d = ctx.by(4, 6);
    ctx.explore("deep-two-remotes", opts(), move |ch| rt::run(rt::RtOpts::default(), async { manager_history(ch, 3, 2, d, 2, true).await }));
}

/// Who is connected while peers come, go and refuse.
async fn connections(ch: &Ch, depth: usize) -> R {
    let g = Geo { pl: 64, total: 200 };
    let known = [9, 10, 11, 13][ch.pick(4)];
    let n = 14;
    let mut w = World::new(g, known, n).await;
    let mut known = known;
    let mut refused = false;
    let mut steps = vec![];
    w.ticks(2).await?;
    for _ in 0..depth {
        let up: Vec<usize> = (0..n).filter(|i| w.far[*i].c.is_some()).collect();
        let k = ch.pick(7);
        steps.push(k);
        ch.note(|| format!("{} connected of {known}: {}", up.len(), ["one leaves", "one leaves for good", "all leave", "all leave, most for good", "the rest becomes known", "1 s passes", "everybody is there again"][k]));
        match k {
            0 | 1 => {
                let Some(i) = up.first().copied() else { return Ok(0) };
                refused |= k == 1;
                if k == 1 {
                    w.far[i].answers = false;
                    w.far[i].r.l = None;
                }
                w.drop_con(i).await?;
            }
            2 | 3 => {
                if up.len() < 2 {
                    return Ok(0);
                }
                refused |= k == 3;
                for (j, i) in up.into_iter().enumerate() {
                    if k == 3 && j > 0 {
                        w.far[i].answers = false;
                        w.far[i].r.l = None;
                    }
                    w.drop_con(i).await?;
                }
            }
            4 => {
                if known == n {
                    return Ok(0);
                }
                for i in known..n {
                    w.peers.insert(w.far[i].r.peer());
                }
                known = n;
            }
            5 => w.tick().await?,
            _ => {
                for f in &mut w.far {
                    if !f.answers {
                        f.answers = true;
                        f.r.listen().await;
                    }
                }
            }
        }
    }
    let r = h((w.connected(), w.far.iter().map(|f| f.connects).sum::<u32>()));
    for f in &mut w.far {
        if !f.answers {
            f.answers = true;
            f.r.listen().await;
        }
    }
    w.ticks(5).await?;
    ensure!(w.connected() == known.min(10), "a known peer is not connected although there is room", "{} of {known} known", w.connected());
    // whoever was left out has its turn when the others leave for good
    let up: Vec<usize> = (0..n).filter(|i| w.far[*i].c.is_some()).collect();
    for i in &up {
        w.far[*i].answers = false;
        w.far[*i].r.l = None;
        w.drop_con(*i).await?;
    }
    w.ticks(6).await?;
    // (peers that could not be reached before are tried in no particular order)
    ensure!(w.connected() == known - up.len() || refused, "a known peer is not connected although there is room", "{} of {} that are left", w.connected(), known - up.len());
    mc::no_panic()?;
    Ok(r)
}
/// Silent peers choke one after the other: whoever is asked next was assigned within the limit.
async fn rotation(ch: &Ch) -> R {
    let n = 4 + ch.pick(2);
    let pieces = 1 + ch.pick(2);
    let late = ch.pick(3);
    let g = Geo { pl: 64, total: 64 * pieces };
    let mut w = World::new(g, n, n).await;
    w.tick().await?;
    for i in 0..n {
        w.all(i).await?;
        if i < n - late {
            w.choke(i, false).await?;
        }
    }
    w.tick().await?;
    for i in n - late..n {
        w.choke(i, false).await?;
    }
    let mut asked = BTreeSet::new();
    for _ in 0..n {
        w.ticks(10).await?;
        let Some((i, _)) = w.hold.get(&0).copied() else { break };
        if w.far[i].choking {
            break;
        }
        asked.insert(i);
        ch.note(|| format!("remote {i} was asked, it chokes"));
        w.choke(i, true).await?;
    }
    ensure!(asked.len() <= 3, "more than three peers work on a piece", "{asked:?}");
    ensure!(asked.len() == 3, "a stalled piece is not given to others", "{asked:?}");
    w.finale().await?;
    Ok(h(asked))
}
/// Storing fails at any of the first calls: the piece is not counted, it is fetched again, and in the end all is there.
async fn failing_writes(ch: &Ch) -> R {
    let pieces = 3usize;
    let n = 1 + ch.pick(2);
    let g = Geo { pl: 64, total: 64 * (pieces - 1) + 40 };
    let mut w = World::new(g, n, n).await;
    // the manager opens its directory at the start
    rt::pass(Duration::from_millis(1300)).await;
    let failed = std::rc::Rc::new(std::cell::Cell::new(0u32));
    let f2 = failed.clone();
    sys::track(&w.dir);
    sys::with(|e| {
        e.fault = Some(Box::new(move |c, _, n| {
            let alts: &[Act] = match c {
                Call::Write if n > 2 => &[Act::Pass, Act::Errno(libc::ENOSPC), Act::Errno(libc::EIO), Act::Short(2)],
                Call::Open => &[Act::Pass, Act::Errno(libc::EMFILE), Act::Errno(libc::EACCES)],
                Call::Seek => &[Act::Pass, Act::Errno(libc::EIO)],
                _ => return Act::Pass,
            };
            let k = mc::current().deviate(alts.len());
            f2.set(f2.get() + (k > 0) as u32);
            alts[k]
        }))
    });
    let mut cs = vec![];
    for i in 0..n {
        let Some(mut c) = w.far[i].r.try_accept().await else { return fail("a known peer is not connected although there is room", format!("remote {i}")) };
        w.far[i].r.shake(&mut c).await?;
        let _ = c.write_all(&M::Bitfield(w.bits(&(0..pieces).collect())).wire()).await;
        let _ = c.write_all(&M::Unchoke.wire()).await;
        cs.push((c, vec![]));
    }
    let mut asked = vec![0; pieces];
    for _ in 0..60 {
        rt::pass(Duration::from_millis(333)).await;
        for (c, buf) in &mut cs {
            let (b, eof) = read_now(c).await;
            ensure!(!eof, "connection closed by the client", "a remote that answers");
            buf.extend(b);
            let (ms, _) = spec_parse(buf);
            let used: usize = ms.iter().map(|m| m.wire().len()).sum();
            buf.drain(..used);
            for m in ms {
                if let M::Request(p, at, _) = m {
                    ensure!((p as usize) < pieces && at == 0, "asked for a block that does not exist", "piece {p} at {at}");
                    asked[p as usize] += 1;
                    let _ = c.write_all(&M::Piece(p, 0, g.content(p as usize)).wire()).await;
                    rt::settle().await;
                }
            }
        }
        let (c, d) = (w.count.load(Ordering::Relaxed), w.on_disk());
        let there = (0..pieces).filter(|p| d[p * g.pl..][..g.piece_len(*p)] == g.content(*p)[..]).count() as u64;
        ensure!(c <= there, "a piece is counted that is not stored", "{c} counted, {there} in the file, {} failed calls", failed.get());
        ensure!(w.fin.is_empty() || there == pieces as u64, "completion reported too early", "{there} of {pieces} pieces in the file");
    }
    let c = w.count.load(Ordering::Relaxed);
    w.stored = (0..pieces).collect();
    ensure!(c == pieces as u64, "the download never completes", "{c} of {pieces} counted as stored 20 s after {} failed calls; asked for {asked:?}", failed.get());
    w.check_disk()?;
    ensure!(w.fin.len() == 1, "completion not reported once", "{} times", w.fin.len());
    ensure!(asked.iter().sum::<usize>() as u32 <= pieces as u32 + failed.get(), "a stored piece is fetched again", "asked for {asked:?}, {} failed calls", failed.get());
    mc::no_panic()?;
    Ok(h(asked))
}
/// Storing fails for several pieces in a row: none of them is lost, and all the others go on.
async fn many_failing_writes(ch: &Ch) -> R {
    let k = 1 + ch.pick(9);
    let rounds = 1 + ch.pick(3);
    let which = ch.pick(3);
    ch.note(|| format!("{rounds} times {k} pieces cannot be stored: {}", ["no space", "no file can be opened", "input/output error"][which]));
    let mut w = World::new(Geo { pl: 64, total: 64 * 13 + 9 }, 3, 3).await;
    w.ticks(2).await?;
    for i in 0..3 {
        w.all(i).await?;
        w.choke(i, false).await?;
    }
    w.ticks(2).await?;
    sys::track(&w.dir);
    for r in 0..rounds {
        sys::with(|e| {
            e.fault = Some(Box::new(move |c, _, n| match c {
                Call::Write if n > 2 && which != 1 => Act::Errno(if which == 0 { libc::ENOSPC } else { libc::EIO }),
                Call::Open if which == 1 => Act::Errno(libc::EMFILE),
                _ => Act::Pass,
            }))
        });
        let mut lost = 0;
        for i in 0..3 {
            for p in w.fresh(i) {
                if lost == k {
                    break;
                }
                let x = w.g.content(p);
                w.send(i, M::Piece(p as u32, 0, x)).await?;
                w.hold.remove(&p);
                for f in &mut w.far {
                    f.open.retain(|q| *q != p);
                }
                w.works = std::mem::take(&mut w.works).into_iter().map(|mut v| {
                    for x in &mut v {
                        x.remove(&p);
                    }
                    v
                }).collect();
                lost += 1;
                w.absorb().await?;
            }
        }
        ensure!(lost == k, "an eligible piece is not started", "{lost} requests instead of {k} open in round {r}");
        let c = w.count.load(Ordering::Relaxed);
        ensure!(c == 0, "a piece is counted that is not stored", "{c} counted");
        sys::with(|e| e.fault = None);
        w.ticks(2).await?;
    }
    w.finale().await?;
    Ok(h((k, rounds, which)))
}
/// A remote that unchokes and offers everything but never takes what it is sent off its connection.
async fn stalled(ch: &Ch) -> R {
    let step = [4usize, 3, 1, 8][ch.pick(4)];
    let bufs = [2304usize, 9000][ch.pick(2)];
    let chatty = ch.pick(2) == 1;
    ch.note(|| format!("pieces offered by the other remote at a time: {step}; send buffer {bufs}; the stalled one keeps talking: {chatty}"));
    sys::with(|e| e.sndbuf = bufs);
    let pieces = 120usize;
    let g = Geo { pl: 64, total: 64 * pieces };
    let mut w = World::new(g, 2, 3).await;
    rt::pass(Duration::from_millis(1300)).await;
    let mut cs = vec![];
    for i in 0..2 {
        let Some(mut c) = w.far[i].r.try_accept().await else { return fail("a known peer is not connected although there is room", format!("remote {i}")) };
        w.far[i].r.shake(&mut c).await?;
        cs.push(c);
    }
    let all = w.bits(&(0..pieces).collect());
    let _ = cs[0].write_all(&M::Bitfield(all).wire()).await;
    let _ = cs[0].write_all(&M::Unchoke.wire()).await;
    let _ = cs[1].write_all(&M::Unchoke.wire()).await;
    rt::pass(Duration::from_secs(3)).await;
    let (mut offered, mut buf, mut done) = (0, vec![], BTreeSet::new());
    for t in 0..40 * pieces / step {
        if done.len() == offered && offered < pieces {
            for p in offered..(offered + step).min(pieces) {
                let _ = cs[1].write_all(&M::Have(p as u32).wire()).await;
            }
            offered = (offered + step).min(pieces);
        }
        if chatty && t % 3 == 0 {
            let _ = cs[0].write_all(&[M::Have(0).wire(), M::Interested.wire(), M::KeepAlive.wire()].concat()).await;
        }
        rt::pass(Duration::from_millis(501)).await;
        let (b, eof) = read_now(&mut cs[1]).await;
        ensure!(!eof, "connection closed by the client", "remote 1");
        buf.extend(b);
        let (ms, _) = spec_parse(&buf);
        let used: usize = ms.iter().map(|m| m.wire().len()).sum();
        buf.drain(..used);
        for m in ms {
            if let M::Request(p, at, _) = m {
                ensure!((p as usize) < offered && at == 0, "asked a peer for a piece it did not announce", "remote 1: piece {p} at {at}, {offered} announced");
                let _ = cs[1].write_all(&M::Piece(p, 0, g.content(p as usize)).wire()).await;
                done.insert(p as usize);
            }
        }
        if done.len() == pieces {
            break;
        }
    }
    ensure!(done.len() == pieces, "the download never completes", "{} of {pieces} pieces asked from the remote that answers, {offered} offered, next to one that takes nothing off its connection", done.len());
    rt::pass(Duration::from_secs(2)).await;
    w.stored = done;
    w.check_disk()?;
    w.peers.insert(w.far[2].r.peer());
    rt::pass(Duration::from_secs(3)).await;
    ensure!(w.far[2].r.try_accept().await.is_some(), "a known peer is not connected although there is room", "a peer learned next to one that takes nothing off its connection");
    mc::no_panic()?;
    Ok(h((step, bufs)))
}
fn main() {
    mc::main(&[("C06", c06), ("C07", c07)]);
}

//! C05 block assembly, C08 peer table: every operation history and thread interleaving within bounds,
//! followed by a reference model.
use harness::mc::{self, fail, h, opts, Ch, Ctx, Fail, R};
use harness::{ensure, ensure_eq, rt, vthread};
use nargun::verif::data_structures::ID;
use nargun::verif::peers::active_peers::{Peers, Status};
use nargun::verif::peers::connection::downloader::BlockAddress;
use nargun::verif::peers::connection::pending_pieces::{AddBlockRes, FinishedPiece, PendingPieces};
use nargun::verif::peers::peer::Peer;
use std::collections::{BTreeMap, BTreeSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

const BS: usize = 16384;
fn peer(n: u16) -> Peer {
    let [hi, lo] = n.to_be_bytes();
    Peer::new(SocketAddrV4::new(Ipv4Addr::new(10, 3, hi, lo), 7000 + n))
}

/// Checks a finished history against a sequential reference: some order of the operations that
/// respects what happened before what, in which every result is one the reference allows.
fn linearizable<M: Clone, O>(init: &M, ops: &[Vec<(O, u64, u64)>], step: &dyn Fn(&mut M, usize, &O) -> Result<(), Fail>, end: &dyn Fn(&M) -> Result<(), Fail>) -> Result<(), Fail> {
    fn go<M: Clone, O>(m: &M, ops: &[Vec<(O, u64, u64)>], at: &mut Vec<usize>, step: &dyn Fn(&mut M, usize, &O) -> Result<(), Fail>, end: &dyn Fn(&M) -> Result<(), Fail>, why: &mut Option<(usize, Fail)>) -> bool {
        let done: usize = at.iter().sum();
        let left: Vec<usize> = (0..ops.len()).filter(|t| at[*t] < ops[*t].len()).collect();
        if left.is_empty() {
            return match end(m) {
                Ok(()) => true,
                Err(f) => {
                    *why = Some((usize::MAX, f));
                    false
                }
            };
        }
        for &t in &left {
            let (o, start, _) = &ops[t][at[t]];
            // an operation that ended before this one began has to come first
            if left.iter().any(|u| *u != t && ops[*u][at[*u]].2 < *start) {
                continue;
            }
            let mut n = m.clone();
            match step(&mut n, t, o) {
                Ok(()) => {
                    at[t] += 1;
                    let r = go(&n, ops, at, step, end, why);
                    at[t] -= 1;
                    if r {
                        return true;
                    }
                }
                Err(f) => {
                    if why.as_ref().is_none_or(|(d, _)| *d <= done) {
                        *why = Some((done, f));
                    }
                }
            }
        }
        false
    }
    let mut why = None;
    if go(init, ops, &mut vec![0; ops.len()], step, end, &mut why) {
        Ok(())
    } else {
        let (_, f) = why.unwrap();
        fail(format!("no order of the operations explains the results: {}", f.key), f.msg)
    }
}
static CLOCK: AtomicU64 = AtomicU64::new(1);
fn tick() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

// ------------------------------------------------------------------ C05
#[derive(Clone, Debug, PartialEq, Hash)]
enum B {
    Free,
    /// holder, earliest and latest time it can have been asked for (ms)
    Pend(u8, u64, u64),
    Stored(u8),
}
#[derive(Clone, Debug, Hash)]
struct Asm {
    pl: usize,
    total: u64,
    pieces: BTreeMap<usize, Vec<B>>,
    bufs: [Vec<(usize, usize)>; 2],
    now: u64,
}
#[derive(Clone, Debug)]
enum Res {
    Failed,
    Added,
    Last(usize, Vec<Vec<u8>>),
}
#[derive(Clone, Debug)]
enum Op {
    AddPiece(usize, bool),
    Remove(usize),
    /// owner, pieces asked for, capacity, buffer afterwards (piece, block, length)
    Take(usize, Vec<usize>, usize, Vec<(usize, usize, usize)>),
    /// piece, block, tag, size, result
    Add(usize, usize, u8, usize, Res),
    Cancel(u8),
    Pass(u64),
}
fn block(p: usize, b: usize, tag: u8, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = vec![tag; n];
    for (i, x) in [p as u8, b as u8].into_iter().enumerate() {
        if i < n {
            v[i] = x;
        }
    }
    v
}
const MIN_HELD: u64 = 6_000;
const MAX_HELD: u64 = 8_000;
impl Asm {
    fn new(pl: usize, total: u64) -> Self {
        Asm { pl, total, pieces: BTreeMap::new(), bufs: [vec![], vec![]], now: 0 }
    }
    /// What the future depends on: ages instead of times, no content.
    fn key(&self) -> u64 {
        let age = |t: u64| (self.now - t).min(9_000);
        let p: Vec<(usize, Vec<(u8, u64, u64)>)> = self.pieces.iter().map(|(p, v)| (*p, v.iter().map(|b| match b {
            B::Free => (0, 0, 0),
            B::Pend(o, lo, hi) => (1 + o, age(*lo), age(*hi)),
            B::Stored(_) => (9, 0, 0),
        }).collect())).collect();
        h((p, &self.bufs))
    }
    fn piece_len(&self, p: usize) -> usize {
        let start = (p as u64).saturating_mul(self.pl as u64);
        self.total.saturating_sub(start).min(self.pl as u64) as usize
    }
    fn blocks(&self, p: usize) -> usize {
        self.piece_len(p).div_ceil(BS)
    }
    fn block_len(&self, p: usize, b: usize) -> usize {
        BS.min(self.piece_len(p) - b * BS)
    }
    fn step(&mut self, o: &Op) -> Result<(), Fail> {
        match o {
            Op::Pass(ms) => self.now += ms,
            Op::AddPiece(p, ok) => {
                let can = self.pieces.contains_key(p) || (self.pieces.len() < 10 && self.piece_len(*p) > 0);
                ensure_eq!(*ok, can, "adding a piece", "piece {p} with {:?} in assembly", self.pieces.keys());
                if can {
                    let n = self.blocks(*p);
                    self.pieces.entry(*p).or_insert_with(|| vec![B::Free; n]);
                }
            }
            Op::Remove(p) => {
                self.pieces.remove(p);
            }
            Op::Cancel(o) => {
                for b in self.pieces.values_mut().flatten() {
                    if matches!(b, B::Pend(x, _, _) if x == o) {
                        *b = B::Free;
                    }
                }
            }
            Op::Take(o, asked, cap, after) => {
                let me = *o as u8;
                ensure!(after.len() <= *cap, "more blocks taken than there is room for", "{} of {cap}", after.len());
                let set: BTreeSet<(usize, usize)> = after.iter().map(|(p, b, _)| (*p, *b)).collect();
                ensure!(set.len() == after.len(), "a block handed out twice", "{after:?}");
                for (p, b, n) in after {
                    let Some(x) = self.pieces.get(p).and_then(|v| v.get(*b)) else {
                        return fail("a block handed out that is not in assembly", format!("block {b} of piece {p}"));
                    };
                    ensure_eq!(*n, self.block_len(*p, *b), "a block handed out with a wrong length", "block {b} of piece {p}");
                    let had = self.bufs[*o].contains(&(*p, *b));
                    match x {
                        B::Stored(_) => return fail("a stored block handed out", format!("block {b} of piece {p}")),
                        B::Free => ensure!(!had || asked.contains(p), "a block kept that is not assigned any more", "block {b} of piece {p}"),
                        B::Pend(q, lo, _) => {
                            if *q != me || !had {
                                ensure!(self.now - lo > MIN_HELD, "a block handed out while another request for it is running", "block {b} of piece {p}, asked {} ms ago", self.now - lo);
                            }
                        }
                    }
                    ensure!(had || asked.contains(p), "a block of a piece that was not asked for", "block {b} of piece {p}");
                }
                // nothing that could be worked on is left out while there is room
                let old = std::mem::take(&mut self.bufs[*o]);
                for (p, v) in self.pieces.iter_mut() {
                    for (b, x) in v.iter_mut().enumerate() {
                        let now_in = set.contains(&(*p, b));
                        if now_in {
                            *x = match x {
                                // kept: the request may have been renewed or not
                                B::Pend(q, lo, hi) if *q == me && old.contains(&(*p, b)) => {
                                    if self.now - *lo > MIN_HELD {
                                        B::Pend(me, *lo, self.now)
                                    } else {
                                        B::Pend(me, *lo, *hi)
                                    }
                                }
                                _ => B::Pend(me, self.now, self.now),
                            };
                        } else if after.len() < *cap && asked.contains(p) {
                            match x {
                                B::Free => return fail("a block nobody works on is not handed out", format!("block {b} of piece {p}")),
                                B::Pend(_, _, hi) if self.now - *hi > MAX_HELD => return fail("a block whose request expired is not handed out", format!("block {b} of piece {p}")),
                                _ => (),
                            }
                        }
                    }
                }
                self.bufs[*o] = after.iter().map(|(p, b, _)| (*p, *b)).collect();
            }
            Op::Add(p, b, tag, n, r) => {
                let ok = match self.pieces.get(p).and_then(|v| v.get(*b)) {
                    None | Some(B::Stored(_)) => Some(false),
                    _ if *n != self.block_len(*p, *b) => Some(false),
                    Some(B::Pend(..)) => Some(true),
                    // never asked for (or cancelled): its owner decides
                    Some(B::Free) => None,
                };
                if matches!(r, Res::Failed) {
                    ensure!(ok != Some(true), "a block that was asked for is refused", "block {b} of piece {p}, {n} bytes");
                    return Ok(());
                }
                ensure!(ok != Some(false), "a block that must change nothing is accepted", "block {b} of piece {p}, {n} bytes: {:?}", self.pieces.get(p).map(|v| v.get(*b)));
                self.pieces.get_mut(p).unwrap()[*b] = B::Stored(*tag);
                let all = self.pieces[p].iter().all(|x| matches!(x, B::Stored(_)));
                match r {
                    Res::Added => ensure!(!all, "a complete piece is not delivered", "piece {p}"),
                    Res::Last(q, data) => {
                        ensure!(all, "an incomplete piece is delivered", "piece {p}: {:?}", self.pieces[p]);
                        ensure_eq!(q, p, "another piece is delivered", "index");
                        let want: Vec<Vec<u8>> = self.pieces[p].iter().enumerate().map(|(i, x)| match x {
                            B::Stored(t) => block(*p, i, *t, self.block_len(*p, i)),
                            _ => vec![],
                        }).collect();
                        ensure!(data.concat() == want.concat(), "the piece delivered has other bytes than its blocks", "piece {p}");
                        self.pieces.remove(p);
                    }
                    _ => (),
                }
            }
        }
        Ok(())
    }
}
fn take(pp: &PendingPieces, asked: &[usize], buf: &mut Vec<BlockAddress>) -> Vec<(usize, usize, usize)> {
    pp.take_not_good_blocks(asked.to_vec(), buf);
    buf.iter().map(|a| (a.piece_idx, a.block_idx, a.length)).collect()
}
fn add(pp: &mut PendingPieces, p: usize, b: usize, tag: u8, n: usize) -> Res {
    match pp.add_block_data(p, b, block(p, b, tag, n)) {
        AddBlockRes::Failed => Res::Failed,
        AddBlockRes::Added => Res::Added,
        AddBlockRes::AddedLast(FinishedPiece { idx, data }) => Res::Last(idx, data),
    }
}
/// What the downloader does with its list when a block was accepted.
fn forget(buf: &mut Vec<BlockAddress>, m: &mut Asm, o: usize, p: usize, b: usize) {
    buf.retain(|a| !(a.piece_idx == p && a.block_idx == b));
    m.bufs[o].retain(|x| *x != (p, b));
}
#[derive(Clone, Copy)]
struct Geo {
    pl: usize,
    total: u64,
}
fn assembly_history(ch: &Ch, g: Geo, depth: usize, cap: usize, prune: bool) -> R {
    let ch = ch.clone();
    rt::run(rt::RtOpts::default(), async move {
        let mut m = Asm::new(g.pl, g.total);
        let last = (g.total.div_ceil(g.pl as u64) - 1) as usize;
        let base = PendingPieces::new(g.pl, g.total);
        let mut own: Vec<PendingPieces> = (0..2).map(|i| {
            let mut c = base.clone();
            c.set_owner_peer(peer(i as u16 + 1));
            c
        }).collect();
        let mut bufs: [Vec<BlockAddress>; 2] = [Vec::with_capacity(cap), Vec::with_capacity(cap)];
        let cap = bufs[0].capacity();
        let mut tag = 0;
        let universe: Vec<usize> = if last == 0 { vec![0] } else { vec![0, last] };
        for d in 0..depth {
            if prune && !ch.visit(m.key(), (depth - d) as u32) {
                return Ok(1);
            }
            tag += 1;
            let k = ch.pick(8);
            let op = match k {
                0 | 1 => {
                    let p = if k == 0 { 0 } else { last };
                    if k == 1 && last == 0 {
                        return Ok(0);
                    }
                    Op::AddPiece(p, own[0].add_piece(p).is_ok())
                }
                2 | 3 => {
                    let o = k - 2;
                    let asked: Vec<usize> = match ch.pick(universe.len() + 1) {
                        0 => universe.clone(),
                        i => vec![universe[i - 1]],
                    };
                    if universe.len() == 1 && asked.len() == 1 && ch.pick(2) == 1 {
                        return Ok(0);
                    }
                    let r = take(&own[o], &asked, &mut bufs[o]);
                    Op::Take(o, asked, cap, r)
                }
                4 => {
                    // a block that suits somebody's list, or none
                    let o = ch.pick(2);
                    let p = universe[ch.pick(universe.len())];
                    let b = ch.pick(m.blocks(p));
                    let n = m.block_len(p, b);
                    let r = add(&mut own[o], p, b, tag, n);
                    if !matches!(r, Res::Failed) {
                        forget(&mut bufs[o], &mut m, o, p, b);
                    }
                    Op::Add(p, b, tag, n, r)
                }
                5 => {
                    // everything that fits nothing, one after the other: none of it may change anything
                    for p in [0, last, last + 1, 1 << 40] {
                        let nb = m.blocks(p);
                        for (b, n) in [(nb, BS), (nb + 1, 0), (0, 0), (0, BS + 1), (nb.saturating_sub(1), BS - 1), (usize::MAX / BS, BS)] {
                            if nb > b && m.block_len(p, b) == n {
                                continue;
                            }
                            m.step(&Op::Add(p, b, tag, n, add(&mut own[0], p, b, tag, n)))?;
                        }
                    }
                    for p in [last + 1, usize::MAX, 1 << 40] {
                        m.step(&Op::AddPiece(p, own[1].add_piece(p).is_ok()))?;
                    }
                    ch.note(|| "everything that fits nothing".to_string());
                    continue;
                }
                6 => {
                    let o = ch.pick(2) as u8;
                    own[1].cancel_pending(&peer(o as u16 + 1));
                    Op::Cancel(o)
                }
                _ => {
                    let ms = [4_000, 9_000][ch.pick(2)];
                    tokio::time::advance(Duration::from_millis(ms)).await;
                    Op::Pass(ms)
                }
            };
            ch.note(|| describe(&op));
            m.step(&op)?;
        }
        // a long time later a newcomer is offered exactly what is missing, and can finish everything
        tokio::time::advance(Duration::from_secs(20)).await;
        m.now += 20_000;
        let mut late = base.clone();
        late.set_owner_peer(peer(1));
        bufs[0] = Vec::with_capacity(64);
        m.bufs[0].clear();
        let r = take(&late, &universe, &mut bufs[0]);
        m.step(&Op::Take(0, universe.clone(), bufs[0].capacity(), r.clone()))?;
        let missing: BTreeSet<(usize, usize)> = m.pieces.iter().flat_map(|(p, v)| v.iter().enumerate().filter(|(_, b)| !matches!(b, B::Stored(_))).map(|(i, _)| (*p, i)).collect::<Vec<_>>()).collect();
        ensure_eq!(r.iter().map(|(p, b, _)| (*p, *b)).collect::<BTreeSet<_>>(), missing, "blocks offered at the end", "missing");
        for (p, b, n) in r {
            m.step(&Op::Add(p, b, 77, n, add(&mut late, p, b, 77, n)))?;
        }
        ensure!(m.pieces.is_empty(), "pieces never delivered", "{:?}", m.pieces);
        Ok(h(&m))
    })
}
fn describe(o: &Op) -> String {
    match o {
        Op::Add(p, b, t, n, r) => format!("block {b} of piece {p} ({n} bytes, tag {t}): {}", match r {
            Res::Failed => "refused".to_string(),
            Res::Added => "added".to_string(),
            Res::Last(q, d) => format!("piece {q} complete ({} blocks)", d.len()),
        }),
        x => format!("{x:?}"),
    }
}

/// One thread's little program.
#[derive(Clone, Copy, Debug)]
enum T {
    Take,
    AddOwn,
    Add(usize, usize),
    Piece(usize),
    Remove(usize),
    CancelOwn,
}
fn assembly_threads(ch: &Ch, threads: usize, len: usize, menu: &'static [T], pre: usize, g: Geo) -> R {
    let ch2 = ch.clone();
    let progs: Vec<Vec<T>> = (0..threads).map(|_| (0..len).map(|_| menu[ch2.pick(menu.len())]).collect()).collect();
    // threads are interchangeable apart from their owner: skip mirrored programs
    let key = |p: &Vec<T>| format!("{p:?}");
    if progs.windows(2).any(|w| key(&w[0]) > key(&w[1])) {
        return Ok(0);
    }
    let ch = ch.clone();
    rt::run(rt::RtOpts::default(), async move {
        let last = (g.total.div_ceil(g.pl as u64) - 1) as usize;
        let mut m = Asm::new(g.pl, g.total);
        let mut base = PendingPieces::new(g.pl, g.total);
        base.set_owner_peer(peer(9));
        let mut setup = |m: &mut Asm, o: Op| m.step(&o);
        if pre >= 1 {
            let ok = base.add_piece(0).is_ok();
            setup(&mut m, Op::AddPiece(0, ok))?;
        }
        if pre >= 2 {
            // already asked for long ago by somebody else
            let mut b = Vec::with_capacity(16);
            base.take_not_good_blocks(vec![0], &mut b);
            for x in m.pieces.get_mut(&0).unwrap() {
                *x = B::Pend(9, 0, 0);
            }
            tokio::time::advance(Duration::from_secs(30)).await;
            m.now = 30_000;
        }
        if pre == 3 {
            let r = add(&mut base, 0, 0, 50, m.block_len(0, 0));
            let n = m.block_len(0, 0);
            setup(&mut m, Op::Add(0, 0, 50, n, r))?;
        }
        let log: Arc<Mutex<Vec<Vec<(Op, u64, u64)>>>> = Arc::new(Mutex::new(vec![vec![]; threads]));
        let handle = tokio::runtime::Handle::current();
        let model = m.clone();
        let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (i, prog) in progs.iter().enumerate() {
            let (prog, log, handle, mut pp, m) = (prog.clone(), log.clone(), handle.clone(), base.clone(), model.clone());
            pp.set_owner_peer(peer(i as u16 + 1));
            fs.push(Box::new(move || {
                let _g = handle.enter();
                let mut buf: Vec<BlockAddress> = Vec::with_capacity(2);
                for (k, t) in prog.iter().enumerate() {
                    let tag = (10 * (i + 1) + k) as u8;
                    let s = tick();
                    let op = match *t {
                        T::Take => Op::Take(i, vec![0, last], 2, take(&pp, &[0, last], &mut buf)),
                        T::AddOwn => {
                            let Some(a) = buf.first().copied() else { continue };
                            let r = add(&mut pp, a.piece_idx, a.block_idx, tag, a.length);
                            if !matches!(r, Res::Failed) {
                                buf.remove(0);
                            }
                            Op::Add(a.piece_idx, a.block_idx, tag, a.length, r)
                        }
                        T::Add(p, b) => {
                            let p = if p == 0 { 0 } else { last };
                            let n = m.block_len(p, b.min(m.blocks(p) - 1));
                            Op::Add(p, b, tag, n, add(&mut pp, p, b, tag, n))
                        }
                        T::Piece(p) => {
                            let p = if p == 0 { 0 } else { last };
                            Op::AddPiece(p, pp.add_piece(p).is_ok())
                        }
                        T::Remove(p) => {
                            pp.remove_piece(p);
                            Op::Remove(p)
                        }
                        T::CancelOwn => {
                            pp.cancel_pending(&peer(i as u16 + 1));
                            Op::Cancel(i as u8)
                        }
                    };
                    let e = tick();
                    log.lock().unwrap()[i].push((op, s, e));
                }
            }));
        }
        let sw = vthread::run(&ch, fs)?;
        let ops = std::mem::take(&mut *log.lock().unwrap());
        for (i, v) in ops.iter().enumerate() {
            for (o, _, _) in v {
                ch.note(|| format!("thread {i}: {}", describe(o)));
            }
        }
        // a thread's list also changes when its block is accepted; the model learns that from the results
        let step = |m: &mut Asm, t: usize, o: &Op| -> Result<(), Fail> {
            m.step(o)?;
            if let Op::Add(p, b, _, _, r) = o {
                if !matches!(r, Res::Failed) && t < 2 {
                    m.bufs[t].retain(|x| *x != (*p, *b));
                }
            }
            Ok(())
        };
        // afterwards exactly what the model says is missing is offered
        let mut late = base.clone();
        late.set_owner_peer(peer(1));
        tokio::time::advance(Duration::from_secs(30)).await;
        let mut buf = Vec::with_capacity(64);
        let r: BTreeSet<(usize, usize)> = take(&late, &[0, last], &mut buf).into_iter().map(|(p, b, _)| (p, b)).collect();
        linearizable(&m, &ops, &step, &|m| {
            let missing: BTreeSet<(usize, usize)> = m.pieces.iter().flat_map(|(p, v)| v.iter().enumerate().filter(|(_, b)| !matches!(b, B::Stored(_))).map(|(i, _)| (*p, i)).collect::<Vec<_>>()).collect();
            ensure_eq!(r, missing, "blocks offered at the end", "missing");
            Ok(())
        })?;
        Ok(h((sw, ops.iter().map(|v| v.iter().map(|x| describe(&x.0)).collect::<Vec<_>>()).collect::<Vec<_>>())))
    })
}
fn c05(ctx: &mut Ctx) {
    ctx.assume("time is the runtime's paused clock; a block is held for at least 6 s and at most 8 s");
    let geos = [
        Geo { pl: 2 * BS, total: 2 * 2 * BS as u64 + BS as u64 + 7 }, // last piece: one full and one short block
        Geo { pl: 3 * BS, total: 3 * BS as u64 },                    // one piece of three full blocks
        Geo { pl: BS + 5, total: 2 * (BS as u64 + 5) },              // every piece ends in a short block
        Geo { pl: BS, total: BS as u64 + 1 },                        // one-block pieces, last of one byte
        Geo { pl: 100, total: 150 },                                 // pieces smaller than a block
    ];
    let d = ctx.by(3, 4);
    for (i, g) in geos.into_iter().enumerate() {
        for cap in [1usize, 4] {
            if i > 1 && cap == 1 {
                continue;
            }
            ctx.explore(&format!("histories-{i}-room-{cap}"), opts(), move |ch| assembly_history(ch, g, d, cap, false));
        }
    }
    let d = ctx.by(7, 10);
    ctx.explore("deep", opts(), move |ch| assembly_history(ch, geos[0], d, 2, true));
    let d = ctx.by(8, 11);
    ctx.explore("deep-one-piece", opts(), move |ch| assembly_history(ch, geos[1], d, 2, true));
    // any torrent size, also beyond what fits 31, 32 or 40 bits: where the pieces end and how long their blocks are
    ctx.explore("geometry", opts(), move |ch| {
        let pl = [1usize, 100, BS - 1, BS, BS + 1, 4 * BS, 16 * BS, 256 * BS + 9][ch.pick(8)];
        let n = pl as u64;
        let near = [0u64, 1 << 31, 1 << 32, 3 << 32, 1 << 40, (1 << 32) * n][ch.pick(6)];
        let base = [near, near / n * n][ch.pick(2)];
        let Some(total) = base.checked_add_signed([-1i64, 0, 1, 5, n as i64 - 1, n as i64, n as i64 + 1, 9 * n as i64 + 2][ch.pick(8)]) else { return Ok(0) };
        if total == 0 {
            return Ok(0);
        }
        let last = (total - 1) / n;
        let at = [0, last, last.saturating_sub(1), last + 1, (1 << 31) / n, (1u64 << 32) / n, total.saturating_sub(1 << 31) / n, total.saturating_sub(1 << 32) / n, u64::MAX / n, (u64::MAX / n).saturating_add(1), u64::MAX];
        let first = at[ch.pick(at.len())] as usize;
        let second = ch.pick(3);
        let ch = ch.clone();
        rt::run(rt::RtOpts::default(), async move {
            let mut m = Asm::new(pl, total);
            let mut pp = PendingPieces::new(pl, total);
            pp.set_owner_peer(peer(1));
            for p in [Some(first), match second { 0 => None, 1 => first.checked_sub(1), _ => first.checked_add(1) }].into_iter().flatten() {
                ch.note(|| format!("piece {p} of {} ({pl} bytes each, {total} in all)", last + 1));
                m.step(&Op::AddPiece(p, pp.add_piece(p).is_ok()))?;
                if !m.pieces.contains_key(&p) {
                    continue;
                }
                let mut b = Vec::with_capacity(m.blocks(p) + 1);
                let r = take(&pp, &[p], &mut b);
                m.bufs[0].clear();
                m.step(&Op::Take(0, vec![p], b.capacity(), r.clone()))?;
                ensure_eq!(r.len(), m.blocks(p), "blocks handed out", "piece {p}");
                for (p, b, n) in r {
                    m.step(&Op::Add(p, b, 1, n + 1, add(&mut pp, p, b, 1, n + 1)))?;
                    m.step(&Op::Add(p, b, 1, n, add(&mut pp, p, b, 1, n)))?;
                }
                ensure!(m.pieces.is_empty(), "a piece never delivered", "piece {p}");
            }
            Ok(h(&m))
        })
    });
    // pieces of many blocks
    ctx.explore("many-blocks", opts(), move |ch| {
        let n = [129usize, 256, 257, 1025, 2049, 4097][ch.pick(6)];
        let cut = [0, 1, BS - 1][ch.pick(3)];
        let order = ch.pick(3);
        ch.note(|| format!("{n} blocks, the last one {cut} shorter, order {order}"));
        rt::run(rt::RtOpts::default(), async move {
            let len = n * BS - cut;
            let mut m = Asm::new(len, len as u64 + 5);
            let mut pp = PendingPieces::new(len, len as u64 + 5);
            pp.set_owner_peer(peer(1));
            m.step(&Op::AddPiece(0, pp.add_piece(0).is_ok()))?;
            let mut b = Vec::with_capacity(n + 1);
            let mut r = take(&pp, &[0], &mut b);
            m.step(&Op::Take(0, vec![0], b.capacity(), r.clone()))?;
            ensure_eq!(r.len(), n, "blocks handed out", "count");
            match order {
                0 => r.sort(),
                1 => r.sort_by(|a, b| b.cmp(a)),
                _ => r.sort_by_key(|x| (x.1 % 7, x.1)),
            }
            for (p, b, n) in r {
                m.step(&Op::Add(p, b, b as u8, n, add(&mut pp, p, b, b as u8, n)))?;
            }
            ensure!(m.pieces.is_empty(), "a piece never delivered", "{n} blocks");
            Ok(h((n, cut)))
        })
    });
    // capacity: pieces in any order up to and beyond ten
    ctx.explore("room", opts(), move |ch| {
        let ch = ch.clone();
        rt::run(rt::RtOpts::default(), async move {
            let mut m = Asm::new(BS, 40 * BS as u64);
            let mut pp = PendingPieces::new(BS, 40 * BS as u64);
            pp.set_owner_peer(peer(1));
            let start = ch.pick(4) + 7;
            for i in 0..start {
                m.step(&Op::AddPiece(i, pp.add_piece(i).is_ok()))?;
            }
            for k in 0..4 {
                let op = match ch.pick(5) {
                    0 => Op::AddPiece(20 + k, pp.add_piece(20 + k).is_ok()),
                    1 => Op::AddPiece(3, pp.add_piece(3).is_ok()),
                    2 => Op::Add(2, 0, 1, BS, add(&mut pp, 2, 0, 1, BS)),
                    3 => {
                        pp.remove_piece(4);
                        Op::Remove(4)
                    }
                    _ => Op::Add(20, 0, 2, BS, add(&mut pp, 20, 0, 2, BS)),
                };
                ch.note(|| describe(&op));
                m.step(&op)?;
            }
            for i in 20..33 {
                m.step(&Op::AddPiece(i, pp.add_piece(i).is_ok()))?;
            }
            let mut b = Vec::with_capacity(64);
            let all: Vec<usize> = (0..40).collect();
            let r = take(&pp, &all, &mut b);
            ensure_eq!(r.iter().map(|x| x.0).collect::<BTreeSet<_>>(), m.pieces.keys().copied().collect::<BTreeSet<_>>(), "pieces in assembly", "pieces");
            m.step(&Op::Take(0, all, b.capacity(), r))?;
            Ok(h(&m))
        })
    });
    // many blocks, a small list: exactly as many as there is room for
    let steps = ctx.by(5, 7) as u8;
    ctx.explore("list-room", opts(), move |ch| {
        let ch = ch.clone();
        rt::run(rt::RtOpts::default(), async move {
            let g = Geo { pl: 6 * BS, total: 12 * BS as u64 };
            let mut m = Asm::new(g.pl, g.total);
            let base = PendingPieces::new(g.pl, g.total);
            let mut o: Vec<PendingPieces> = (1..3).map(|i| {
                let mut c = base.clone();
                c.set_owner_peer(peer(i));
                c
            }).collect();
            for i in 0..2 {
                m.step(&Op::AddPiece(i, o[0].add_piece(i).is_ok()))?;
            }
            let caps = [ch.pick(5) + 1, ch.pick(5) + 1];
            let mut bufs: Vec<Vec<BlockAddress>> = caps.iter().map(|c| Vec::with_capacity(*c)).collect();
            for k in 0..steps {
                match ch.pick(4) {
                    x @ (0 | 1) => {
                        let r = take(&o[x], &[0, 1], &mut bufs[x]);
                        m.step(&Op::Take(x, vec![0, 1], bufs[x].capacity(), r))?;
                    }
                    2 => {
                        let x = (k % 2) as usize;
                        if let Some(a) = bufs[x].last().copied() {
                            let r = add(&mut o[x], a.piece_idx, a.block_idx, k, a.length);
                            m.step(&Op::Add(a.piece_idx, a.block_idx, k, a.length, r))?;
                            forget(&mut bufs[x], &mut m, x, a.piece_idx, a.block_idx);
                        }
                    }
                    _ => {
                        tokio::time::advance(Duration::from_secs(9)).await;
                        m.step(&Op::Pass(9000))?;
                    }
                }
            }
            Ok(h(&m))
        })
    });
    const MENU: &[T] = &[T::Take, T::AddOwn, T::Add(0, 0), T::Add(0, 1), T::Piece(0), T::Piece(1), T::Remove(0), T::CancelOwn];
    const SMALL: &[T] = &[T::Take, T::AddOwn, T::Add(0, 0), T::Piece(0), T::Remove(0)];
    let g = geos[0];
    for pre in 0..4 {
        let dv = ctx.by(2, 3);
        let len = ctx.by(2, 3);
        ctx.explore(&format!("two-threads-{pre}"), opts().dev(dv), move |ch| assembly_threads(ch, 2, len, if len == 2 { MENU } else { SMALL }, pre, g));
    }
    if !ctx.quick() {
        ctx.explore("three-threads", opts().dev(2), move |ch| assembly_threads3(ch, g));
    }
}
fn assembly_threads3(ch: &Ch, g: Geo) -> R {
    const M3: &[T] = &[T::AddOwn, T::Add(0, 0), T::Add(0, 1), T::Piece(0)];
    assembly_threads(ch, 3, 2, M3, 1, g)
}

// ------------------------------------------------------------------ C08
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum S {
    Unknown,
    Useless,
    Choked,
    Unable,
    Active,
}
fn status(s: S) -> Status {
    match s {
        S::Unknown => Status::Unknown,
        S::Useless => Status::NoUsefulPieces,
        S::Choked => Status::ChokedForTooLong,
        S::Unable => Status::UnableToConnect,
        S::Active => Status::Active,
    }
}
#[derive(Clone, Debug)]
enum P {
    Insert(u16),
    Extend(Vec<u16>),
    List(Vec<u16>),
    Good(usize, Option<Vec<u16>>),
    Enough(bool),
    Batch(Vec<(u16, S)>, usize, Vec<u16>),
}
type Table = BTreeMap<u16, S>;
fn distinct(v: &[u16]) -> bool {
    v.iter().collect::<BTreeSet<_>>().len() == v.len()
}
fn pstep(m: &mut Table, o: &P) -> Result<(), Fail> {
    match o {
        P::Insert(p) => {
            m.entry(*p).or_insert(S::Unknown);
        }
        P::Extend(ps) => {
            for p in ps {
                m.entry(*p).or_insert(S::Unknown);
            }
        }
        P::List(v) => {
            ensure!(distinct(v), "a peer listed twice", "{v:?}");
            ensure_eq!(v.iter().copied().collect::<BTreeSet<_>>(), m.keys().copied().collect::<BTreeSet<_>>(), "known peers lost or invented", "list");
        }
        P::Good(n, r) => {
            let good: BTreeSet<u16> = m.iter().filter(|(_, s)| **s != S::Unable).map(|(p, _)| *p).collect();
            let v = r.clone().unwrap_or_default();
            ensure!(r.is_none() || !v.is_empty(), "an empty list of peers served", "");
            ensure!(distinct(&v), "a peer served twice", "{v:?}");
            ensure!(v.iter().all(|p| good.contains(p)), "an unreachable or unknown peer served", "{v:?} of {m:?}");
            ensure_eq!(v.len(), good.len().min(*n), "number of peers served", "limit {n}");
        }
        P::Enough(b) => {
            ensure!(!*b || m.len() >= 128, "enough peers reported", "{} known", m.len());
        }
        P::Batch(bad, n, r) => {
            for (p, s) in bad {
                m.insert(*p, *s);
            }
            ensure!(distinct(r), "a peer handed out twice", "{r:?}");
            let idle: Vec<(S, u16)> = {
                let mut v: Vec<(S, u16)> = m.iter().filter(|(_, s)| **s != S::Active).map(|(p, s)| (*s, *p)).collect();
                v.sort();
                v
            };
            for p in r {
                match m.get(p) {
                    None => return fail("an unknown peer handed out", format!("{p}")),
                    Some(S::Active) => return fail("a peer in use handed out again", format!("{p}")),
                    _ => (),
                }
            }
            ensure_eq!(r.len(), idle.len().min(*n), "number of peers handed out", "limit {n}, idle {idle:?}");
            let mut got: Vec<S> = r.iter().map(|p| m[p]).collect();
            got.sort();
            ensure_eq!(got, idle.iter().take(*n).map(|x| x.0).collect::<Vec<_>>(), "peers not handed out best first", "{m:?}");
            for p in r {
                m.insert(*p, S::Active);
            }
        }
    }
    Ok(())
}
fn pid(p: &Peer) -> u16 {
    let [_, _, hi, lo] = p.addr().ip().octets();
    u16::from_be_bytes([hi, lo])
}
fn ids(v: Vec<Peer>) -> Vec<u16> {
    v.iter().map(pid).collect()
}
fn perform(t: &mut Peers, o: &P) -> P {
    match o.clone() {
        P::Insert(p) => {
            t.insert(peer(p));
            P::Insert(p)
        }
        P::Extend(v) => {
            t.extend(v.iter().map(|p| peer(*p)));
            P::Extend(v)
        }
        P::List(_) => P::List(ids(t.peer_addresses())),
        P::Good(n, _) => P::Good(n, t.get_good_peers(n).map(ids)),
        P::Enough(_) => P::Enough(t.enough_peers()),
        P::Batch(bad, n, _) => {
            let b: Vec<(Peer, Status)> = bad.iter().map(|(p, s)| (peer(*p), status(*s))).collect();
            P::Batch(bad, n, ids(t.return_batch_of_bad_peers_and_get_new_batch(&b, n)))
        }
    }
}
const BAD: [S; 4] = [S::Unknown, S::Useless, S::Choked, S::Unable];
fn menu(n: u16) -> Vec<P> {
    let mut v: Vec<P> = (1..=n).map(P::Insert).collect();
    v.push(P::Extend((1..=n).collect()));
    v.push(P::Extend(vec![2, 2, 1]));
    v.push(P::List(vec![]));
    v.extend([1, 2, 10].map(|k| P::Good(k, None)));
    v.push(P::Enough(false));
    v.extend([0, 1, 2, 10].map(|k| P::Batch(vec![], k, vec![])));
    for p in 1..=n {
        for s in BAD {
            for k in [0, 1, 10] {
                v.push(P::Batch(vec![(p, s)], k, vec![]));
            }
        }
    }
    for (a, b) in [(S::Unknown, S::Unable), (S::Useless, S::Choked), (S::Choked, S::Choked)] {
        for k in [0, 1, 2] {
            v.push(P::Batch(vec![(1, a), (2, b)], k, vec![]));
        }
    }
    v.push(P::Batch(vec![(1, S::Unable), (1, S::Choked)], 1, vec![]));
    v
}
fn finale(t: &mut Peers, m: &mut Table) -> Result<(), Fail> {
    for o in [P::List(vec![]), P::Good(2, None), P::Good(usize::MAX, None), P::List(vec![]), P::Batch(vec![], 1, vec![]), P::Batch(vec![], 1000, vec![]), P::Batch(vec![], 1000, vec![]), P::List(vec![])] {
        let r = perform(t, &o);
        pstep(m, &r)?;
    }
    Ok(())
}
fn peers_history(ch: &Ch, n: u16, depth: usize, prune: bool) -> R {
    let menu = menu(n);
    let mut t = Peers::new(&ID::new([1; 20]));
    let mut other = t.clone();
    let mut m = Table::new();
    for d in 0..depth {
        if prune && !ch.visit(h(&m), (depth - d) as u32) {
            return Ok(1);
        }
        let o = &menu[ch.pick(menu.len())];
        // both handles are the same table
        let r = perform(if d % 2 == 0 { &mut t } else { &mut other }, o);
        ch.note(|| format!("{r:?}"));
        pstep(&mut m, &r)?;
    }
    ensure!(t.serve(&ID::new([1; 20])) && !t.serve(&ID::new([2; 20])), "serves another info hash", "");
    let r = h(&m);
    finale(&mut other, &mut m)?;
    Ok(r)
}
fn peers_threads(ch: &Ch, threads: usize, len: usize, pre: usize, menu: &[P]) -> R {
    let ix: Vec<Vec<usize>> = (0..threads).map(|_| (0..len).map(|_| ch.pick(menu.len())).collect()).collect();
    if ix.windows(2).any(|w| w[0] > w[1]) {
        return Ok(0);
    }
    let mut t = Peers::new(&ID::new([1; 20]));
    let mut m = Table::new();
    if pre > 0 {
        pstep(&mut m, &perform(&mut t, &P::Extend(vec![1, 2])))?;
    }
    if pre > 1 {
        let r = perform(&mut t, &P::Batch(vec![], 1, vec![]));
        pstep(&mut m, &r)?;
    }
    let log: Arc<Mutex<Vec<Vec<(P, u64, u64)>>>> = Arc::new(Mutex::new(vec![vec![]; threads]));
    let fs: Vec<Box<dyn FnOnce() + Send>> = ix.iter().enumerate().map(|(i, prog)| {
        let (prog, log, mut t): (Vec<P>, _, Peers) = (prog.iter().map(|k| menu[*k].clone()).collect(), log.clone(), t.clone());
        Box::new(move || {
            for o in &prog {
                let s = tick();
                let r = perform(&mut t, o);
                let e = tick();
                let mut log = log.lock().unwrap();
                // several peers may become known one after the other
                match r {
                    P::Extend(v) => log[i].extend(v.into_iter().map(|p| (P::Insert(p), s, e))),
                    r => log[i].push((r, s, e)),
                }
            }
        }) as Box<dyn FnOnce() + Send>
    }).collect();
    let sw = vthread::run(ch, fs)?;
    let ops = std::mem::take(&mut *log.lock().unwrap());
    for (i, v) in ops.iter().enumerate() {
        for (o, _, _) in v {
            ch.note(|| format!("thread {i}: {o:?}"));
        }
    }
    // what is in the table afterwards must agree too
    let fin = [P::List(vec![]), P::Batch(vec![], 1, vec![]), P::Batch(vec![], 10, vec![])].map(|o| perform(&mut t, &o));
    linearizable(&m, &ops, &|m, _, o| pstep(m, o), &|m| {
        let mut m = m.clone();
        for o in &fin {
            pstep(&mut m, o)?;
        }
        Ok(())
    })?;
    Ok(h((sw, format!("{ops:?}").len())))
}
fn c08(ctx: &mut Ctx) {
    let d = ctx.by(2, 4);
    ctx.explore("histories", opts(), move |ch| peers_history(ch, 3, d, false));
    let d = ctx.by(6, 9);
    ctx.explore("deep", opts(), move |ch| peers_history(ch, 3, d, true));
    let d = ctx.by(4, 6);
    ctx.explore("deep-four-peers", opts(), move |ch| peers_history(ch, 4, d, true));
    // larger tables: every limit against every number of peers per state
    ctx.explore("batches", opts(), move |ch| {
        let mut t = Peers::new(&ID::new([1; 20]));
        let mut m = Table::new();
        let mut next = 1u16;
        let counts: Vec<usize> = (0..4).map(|_| ch.pick(4)).collect();
        for (c, s) in counts.iter().zip(BAD) {
            for _ in 0..*c {
                let r = perform(&mut t, &P::Batch(vec![(next, s)], 0, vec![]));
                pstep(&mut m, &r)?;
                next += 1;
            }
        }
        let n = ch.pick(14);
        for o in [P::Good(n, None), P::Batch(vec![], n, vec![]), P::Good(n, None), P::List(vec![])] {
            let r = perform(&mut t, &o);
            ch.note(|| format!("{r:?}"));
            pstep(&mut m, &r)?;
        }
        let r = h(&m);
        finale(&mut t, &mut m)?;
        Ok(r)
    });
    ctx.explore("many", opts(), move |ch| {
        let n = [100usize, 127, 128, 129, 250, 999, 1000, 1001, 2000, 2001, 2049, 5000, 20_000][ch.pick(13)];
        let mut t = Peers::new(&ID::new([1; 20]));
        let mut m = Table::new();
        let r = perform(&mut t, &P::Extend((1..=n as u16).collect()));
        pstep(&mut m, &r)?;
        for o in [P::Enough(false), P::Good(50, None), P::Batch(vec![], 10, vec![]), P::Enough(false), P::Batch(vec![(1, S::Unable)], n, vec![]), P::List(vec![])] {
            let r = perform(&mut t, &o);
            pstep(&mut m, &r)?;
        }
        finale(&mut t, &mut m)?;
        Ok(n as u64)
    });
    // many peers that are handed out and come back, again and again
    ctx.explore("reuse", opts(), move |ch| {
        let n = [9usize, 20, 60, 128, 250, 1001, 2100][ch.pick(7)];
        let k = [1usize, 8, 10, 50, n][ch.pick(5)];
        let back = ch.pick(5);
        let mut t = Peers::new(&ID::new([1; 20]));
        let mut m = Table::new();
        let r = perform(&mut t, &P::Extend((1..=n as u16).collect()));
        pstep(&mut m, &r)?;
        let mut out: Vec<u16> = vec![];
        for i in 0..5 {
            let bad = out.iter().enumerate().map(|(j, p)| (*p, BAD[if back == 4 { (i + j) % 4 } else { back }])).collect();
            let r = perform(&mut t, &P::Batch(bad, k, vec![]));
            pstep(&mut m, &r)?;
            let P::Batch(_, _, got) = r else { unreachable!() };
            out = got;
            for o in [P::List(vec![]), P::Good(k, None), P::Extend((1..=n as u16).step_by(7).collect()), P::Enough(false)] {
                let r = perform(&mut t, &o);
                pstep(&mut m, &r)?;
            }
        }
        finale(&mut t, &mut m)?;
        Ok(h((n, k, back)))
    });
    for pre in 0..3 {
        let (dv, len) = (ctx.by(2, 3), ctx.by(1, 2));
        ctx.explore(&format!("two-threads-{pre}"), opts().dev(dv), move |ch| {
            let m = if len == 1 { menu(2) } else { thread_menu() };
            peers_threads(ch, 2, len, pre, &m)
        });
        let len = ctx.by(1, 2);
        if len == 1 || pre == 1 {
            ctx.explore(&format!("three-threads-{pre}"), opts().dev(2), move |ch| peers_threads(ch, 3, len, pre, &thread_menu()[..if len == 1 { 9 } else { 5 }]));
        }
    }
    let dv = ctx.by(2, 4);
    ctx.explore("two-threads-pairs", opts().dev(dv), move |ch| peers_threads(ch, 2, 2, 1, &thread_menu()[..6]));
}
fn thread_menu() -> Vec<P> {
    vec![
        P::Batch(vec![(1, S::Unknown)], 1, vec![]), P::Insert(1), P::Batch(vec![], 10, vec![]), P::Good(10, None), P::Insert(3), P::List(vec![]),
        P::Batch(vec![(1, S::Unable)], 1, vec![]), P::Extend(vec![1, 2, 3]), P::Batch(vec![(2, S::Choked)], 2, vec![]), P::Enough(false),
    ]
}

fn main() {
    mc::main(&[("C05", c05), ("C08", c08)]);
}

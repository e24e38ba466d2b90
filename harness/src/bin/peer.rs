//! C01-C04: the peer connection against simulated remote peers under virtual time.
use harness::mc::{self, fail, h, opts, Ch, Ctx, Fail, R};
use harness::peer::*;
use harness::{ensure, ensure_eq, rt, sys};
use nargun::verif::data_structures::{SerializableBuf, ID};
use nargun::verif::peers::connection::connection_handle::Connection;
use nargun::verif::peers::connection::connection_manager::{spawn_connection_manager, ConnectionMessage};
use nargun::verif::peers::connection::message::{Message, Piece, Request};
use nargun::verif::peers::peer::Peer;
use nargun::verif::shutdown;
use std::net::SocketAddrV4;
use std::time::Duration;
use tokio::io::AsyncWriteExt;
use tokio::net::TcpStream;
use tokio::sync::mpsc;

const CHAN: usize = 32;

/// One established connection whose every output is visible.
struct Link {
    addr: SocketAddrV4,
    c: TcpStream,
    pieces: mpsc::Receiver<Piece>,
    dht: mpsc::Receiver<SocketAddrV4>,
    msgs: mpsc::Receiver<ConnectionMessage>,
    send: Option<mpsc::Sender<Message>>,
    _stop: shutdown::Sender,
    got: Vec<M>,
    got_pieces: Vec<M>,
    got_ports: Vec<M>,
}
impl Link {
    async fn open() -> Result<Link, Fail> {
        Link::open_for(100).await
    }
    async fn open_for(piece_count: usize) -> Result<Link, Fail> {
        let addr = peer_addr(1);
        let r = Remote::new(addr).await;
        let (ptx, pieces) = mpsc::channel(CHAN);
        let (dtx, dht) = mpsc::channel(CHAN);
        let (mtx, msgs) = mpsc::channel(CHAN);
        let (stx, srx) = mpsc::channel(CHAN);
        let (stop, srx2) = shutdown::channel();
        spawn_connection_manager(ID::new(ME), Peer::new(addr), ID::new(IH), piece_count, ptx, dtx, mtx, srx, srx2);
        let c = r.accept().await?;
        Ok(Link { addr, c, pieces, dht, msgs, send: Some(stx), _stop: stop, got: vec![], got_pieces: vec![], got_ports: vec![] })
    }
    fn drain(&mut self) -> Result<(), Fail> {
        while let Ok(m) = self.msgs.try_recv() {
            ensure_eq!(*m.peer.addr(), self.addr, "message of another peer", "peer");
            self.got.push(M::from(m.message));
        }
        while let Ok(p) = self.pieces.try_recv() {
            self.got_pieces.push(M::Piece(p.index, p.begin, p.block.into_vec()));
        }
        while let Ok(a) = self.dht.try_recv() {
            ensure_eq!(a.ip(), self.addr.ip(), "port of another host", "ip");
            self.got_ports.push(M::Port(a.port()));
        }
        Ok(())
    }
    /// Lets everything that arrived come through the bounded queues.
    async fn rounds(&mut self) -> Result<(), Fail> {
        loop {
            let n = self.got.len() + self.got_pieces.len() + self.got_ports.len();
            rt::settle().await;
            self.drain()?;
            if n == self.got.len() + self.got_pieces.len() + self.got_ports.len() {
                return Ok(());
            }
        }
    }
    async fn put(&mut self, b: &[u8]) -> Result<(), Fail> {
        match tokio::time::timeout(Duration::from_secs(5), self.c.write_all(b)).await {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => fail("connection closed on the remote", format!("{e}")),
            Err(_) => fail("the client stopped reading", ""),
        }
    }
    fn check(&self, want: &[M]) -> Result<(), Fail> {
        let sel = |f: fn(&M) -> bool| want.iter().filter(|m| f(m)).cloned().collect::<Vec<_>>();
        let (p, o, r): (Vec<M>, Vec<M>, Vec<M>) = (sel(|m| matches!(m, M::Piece(..))), sel(|m| matches!(m, M::Port(_))), sel(|m| !matches!(m, M::Piece(..) | M::Port(_))));
        same(&self.got, &r, "messages differ from the bytes received")?;
        same(&self.got_pieces, &p, "blocks differ from the bytes received")?;
        same(&self.got_ports, &o, "ports differ from the bytes received")
    }
}

/// Writes the chunks (letting the client run in between when `gap`), then a last message, then closes.
async fn feed(chunks: &[Vec<u8>], want: &[M], gap: bool) -> R {
    feed_for(100, chunks, want, gap).await
}
async fn feed_for(piece_count: usize, chunks: &[Vec<u8>], want: &[M], gap: bool) -> R {
    let mut l = Link::open_for(piece_count).await?;
    for c in chunks {
        l.put(c).await?;
        if gap {
            rt::settle().await;
            l.drain()?;
        }
    }
    let mut want = want.to_vec();
    l.rounds().await?;
    l.check(&want)?;
    l.put(&M::Have(0xABCD).wire()).await?;
    want.push(M::Have(0xABCD));
    rt::settle().await;
    l.drain()?;
    l.check(&want)?;
    let addr = l.addr;
    let Link { c, .. } = &mut l;
    let _ = c.shutdown().await;
    rt::settle().await;
    l.drain()?;
    want.push(M::Disconnected);
    l.check(&want)?;
    let _ = addr;
    Ok(h((format!("{:?}", l.got), l.got_pieces.len())))
}

fn good() -> Vec<M> {
    let mut v = vec![M::KeepAlive, M::Choke, M::Unchoke, M::Interested, M::NotInterested];
    for x in [0, 1, 255, 256, 0x01020304, 0x80000000, u32::MAX] {
        v.push(M::Have(x));
    }
    for b in [vec![], vec![0x80], vec![0, 0, 0, 0], vec![0xff, 0x01, 0x7f], (0..200u8).collect()] {
        v.push(M::Bitfield(b));
    }
    for (i, b, l) in [(0, 0, 0), (1, 16384, 16384), (0x01020304, 0x05060708, 0x090a0b0c), (u32::MAX, u32::MAX, u32::MAX)] {
        v.push(M::Request(i, b, l));
        v.push(M::Cancel(i, b, l));
    }
    for (i, b, d) in [(0, 0, vec![]), (0, 0, vec![0]), (0x01020304, 0xfffffffe, vec![9, 8, 7]), (3, 32768, (0..100u8).collect()), (0, 0, vec![0; 9])] {
        v.push(M::Piece(i, b, d));
    }
    for p in [0, 1, 255, 6881, 65535] {
        v.push(M::Port(p));
    }
    v
}
/// Messages with a complete length prefix that are not well-formed.
fn bad() -> Vec<Vec<u8>> {
    let mut v = vec![];
    let body: Vec<u8> = (0..40u8).map(|x| x.wrapping_mul(37)).collect();
    let sizes: [(u8, &[usize]); 10] = [
        (0, &[1, 4]), (1, &[1, 12]), (2, &[1]), (3, &[2]), (4, &[0, 3, 5, 8]), (6, &[0, 4, 11, 13, 16]), (7, &[0, 3, 4, 7]), (8, &[0, 8, 11, 13]), (9, &[0, 1, 3, 4]),
        (10, &[0, 1, 5]),
    ];
    for (id, ns) in sizes {
        for n in ns {
            v.push(raw(id, &body[..*n]));
        }
    }
    for id in [11, 20, 127, 128, 255] {
        v.push(raw(id, &[]));
        v.push(raw(id, &body[..6]));
    }
    v
}
fn domain() -> Vec<(Vec<u8>, Option<M>)> {
    good().into_iter().map(|m| (m.wire(), Some(m))).chain(bad().into_iter().map(|b| (b, None))).collect()
}
fn join(d: &[(Vec<u8>, Option<M>)], ix: &[usize]) -> (Vec<u8>, Vec<M>) {
    (ix.iter().flat_map(|i| d[*i].0.clone()).collect(), ix.iter().filter_map(|i| d[*i].1.clone()).collect())
}
fn cut(s: &[u8], cuts: &[usize]) -> Vec<Vec<u8>> {
    let mut c = cuts.to_vec();
    c.sort();
    let mut v = vec![];
    let mut at = 0;
    for x in c.into_iter().chain([s.len()]) {
        if x > at {
            v.push(s[at..x].to_vec());
            at = x;
        }
    }
    v
}
/// Every way to cut a stream of l bytes at up to k places.
fn cuttings(l: usize, k: usize) -> Vec<Vec<u8>> {
    fn go(from: usize, l: usize, k: usize, cur: &mut Vec<u8>, v: &mut Vec<Vec<u8>>) {
        v.push(cur.clone());
        if k > 0 {
            for x in from..l {
                cur.push(x as u8);
                go(x + 1, l, k - 1, cur, v);
                cur.pop();
            }
        }
    }
    let mut v = vec![];
    go(1, l, k, &mut vec![], &mut v);
    v
}
fn big(i: u32, n: usize) -> M {
    M::Piece(i, i * 16384, (0..n).map(|o| (o as u32 * 31 + i * 7 + (o as u32 >> 8)) as u8).collect())
}

fn c01(ctx: &mut Ctx) {
    let n = domain().len() as u64;
    // every sequence of two (three) messages, in one read and byte by byte
    ctx.each("pairs", n * n, move |i| {
        let d = domain();
        let (s, m) = join(&d, &[(i / n) as usize, (i % n) as usize]);
        rt::run(rt::RtOpts::default(), async { feed(&[s], &m, true).await })
    });
    ctx.each("bytewise", ctx.by(n, n * n), move |i| {
        let d = domain();
        let ix = if i < n { vec![i as usize, 0, i as usize] } else { vec![(i / n) as usize, (i % n) as usize] };
        let (s, m) = join(&d, &ix);
        rt::run(rt::RtOpts::default(), async { feed(&s.chunks(1).map(|c| c.to_vec()).collect::<Vec<_>>(), &m, true).await })
    });
    if !ctx.quick() {
        ctx.each("triples", n * n * n, move |i| {
            let d = domain();
            let (s, m) = join(&d, &[(i / n / n) as usize, (i / n % n) as usize, (i % n) as usize]);
            rt::run(rt::RtOpts::default(), async { feed(&[s], &m, true).await })
        });
    }
    // every segmentation of a fixed stream with two (three) cuts
    let streams: Vec<(Vec<u8>, Vec<M>)> = {
        let g = good();
        let pick = |v: &[M]| (v.iter().flat_map(|m| m.wire()).collect::<Vec<u8>>(), v.to_vec());
        let mut a = pick(&[M::Unchoke, g[8].clone(), M::Request(1, 2, 3), M::Piece(5, 6, vec![1, 2, 3]), M::KeepAlive, M::Port(99)]);
        let b = bad();
        let mut x = M::Have(1).wire();
        x.extend(&b[0]);
        x.extend(raw(200, &[0, 0, 0, 1, 2]));
        x.extend(M::Cancel(1, 2, 3).wire());
        x.extend(raw(7, &[1, 2, 3]));
        x.extend(M::Bitfield(vec![1, 2]).wire());
        a.0.extend(M::Choke.wire());
        a.1.push(M::Choke);
        vec![a, (x, vec![M::Have(1), M::Cancel(1, 2, 3), M::Bitfield(vec![1, 2])])]
    };
    let cuts = ctx.by(2usize, 3);
    for (k, (s, m)) in streams.into_iter().enumerate() {
        let l = s.len() as u64;
        let all = cuttings(l as usize, cuts);
        ctx.each(&format!("cuts-{k}"), all.len() as u64, move |i| {
            let c: Vec<usize> = all[i as usize].iter().map(|x| *x as usize).collect();
            rt::run(rt::RtOpts::default(), async { feed(&cut(&s, &c), &m, true).await })
        });
    }
    // blocks of full size crossing the receive buffer
    let pre: [usize; 6] = [0, 1, 100, 110, 111, 112];
    ctx.explore("blocks", opts().fresh(false), move |ch| {
        let p = pre[ch.pick(pre.len())];
        let mut ms: Vec<M> = (0..p).map(|_| M::KeepAlive).collect();
        ms.push(big(1, 16384));
        let mid = ch.pick(4);
        match mid {
            0 => ms.push(M::Have(3)),
            1 => ms.push(M::Bitfield(vec![0x55; 115])),
            2 => ms.push(big(2, 16383)),
            _ => (),
        }
        ms.push(big(3, 16384));
        ms.push(M::Request(1, 2, 3));
        let s: Vec<u8> = ms.iter().flat_map(|m| m.wire()).collect();
        // cuts near the interesting offsets: ends of messages and multiples of the buffer
        let mut at = vec![];
        let mut o = 0;
        for m in &ms {
            o += m.wire().len();
            if !matches!(m, M::KeepAlive) || o == 4 {
                at.push(o);
            }
        }
        at.extend([16384, 16512, 2 * 16512, 32768]);
        let mut cs = vec![];
        for _ in 0..2 {
            let a = at[ch.pick(at.len())] as i64;
            let d = [-5i64, -4, -1, 0, 1, 4, 13][ch.pick(7)];
            let c = a + d;
            if c > 0 && (c as usize) < s.len() {
                cs.push(c as usize);
            }
        }
        ch.note(|| format!("{p} keep-alives, cut at {cs:?}"));
        rt::run(rt::RtOpts::default(), async { feed(&cut(&s, &cs), &ms, true).await })
    });
    // sizes around the block size
    ctx.each("sizes", ctx.by(24, 200), move |i| {
        let n = [0usize, 1, 16383, 16384][(i % 4) as usize];
        let k = i / 4;
        let mut ms = vec![big(k as u32, n), M::Bitfield(vec![0xa5; (k as usize * 331) % 16000 + 1]), big(1, 16384), M::Choke];
        ms.rotate_left((k % 4) as usize);
        let s: Vec<u8> = ms.iter().flat_map(|m| m.wire()).collect();
        let step = 1000 + (k as usize * 977) % 15000;
        rt::run(rt::RtOpts::default(), async { feed(&s.chunks(step).map(|c| c.to_vec()).collect::<Vec<_>>(), &ms, k % 2 == 0).await })
    });
    // bitfields of torrents with so many pieces that it is the bitfield that is the longest message
    ctx.explore("large-bitfields", opts().fresh(false), move |ch| {
        let n = [100usize, 130_000, 131_072, 132_000, 132_056, 132_057, 140_000, 200_000, 264_000, 1_000_001][ch.pick(10)];
        let len = (n + 7) / 8;
        let at = ch.pick(3);
        let mut ms = vec![big(1, 16384), M::Have(7), big(2, 16383)];
        ms.insert(at, M::Bitfield((0..len).map(|x| (x % 253) as u8 | 1).collect()));
        if ch.pick(2) == 1 {
            ms.push(M::Bitfield(vec![0x33; len]));
        }
        let s: Vec<u8> = ms.iter().flat_map(|m| m.wire()).collect();
        let step = [usize::MAX, 16384, 16512, 5000, len, len + 5][ch.pick(6)];
        let gap = ch.pick(2) == 1;
        ch.note(|| format!("{n} pieces, {len} bytes, chunks of {step}"));
        rt::run(rt::RtOpts::default(), async { feed_for(n, &s.chunks(step).map(|c| c.to_vec()).collect::<Vec<_>>(), &ms, gap).await })
    });
    // messages too long to be received: skipped as a whole, or the connection ends
    ctx.explore("too-long", opts().fresh(false), move |ch| {
        let n = [16509u32, 16510, 20000, 33024, 100_000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffc, 0xffff_fffb][ch.pick(10)];
        let id = [5u8, 7, 0, 99][ch.pick(4)];
        let before = ch.pick(2) == 1;
        let whole = n <= 100_000 && ch.pick(2) == 1;
        let step = [1usize << 20, 5000, 4][ch.pick(3)];
        let follow = ch.pick(2) == 1;
        rt::run(rt::RtOpts::default(), async {
            let mut l = Link::open().await?;
            let mut want = vec![];
            let mut s = vec![];
            if before {
                s.extend(M::Have(9).wire());
                want.push(M::Have(9));
            }
            s.extend(n.to_be_bytes());
            s.push(id);
            let body = if whole { n as usize - 1 } else { 300 };
            s.extend((0..body).map(|x| (x % 251) as u8));
            if follow && whole {
                s.extend(M::Have(4).wire());
            }
            for c in s.chunks(if step == 4 && s.len() > 2000 { 1500 } else { step }) {
                // the client may close at any point
                if !matches!(tokio::time::timeout(Duration::from_secs(5), l.c.write_all(c)).await, Ok(Ok(()))) {
                    break;
                }
                rt::settle().await;
                l.drain()?;
            }
            rt::pass(Duration::from_secs(1)).await;
            l.drain()?;
            ensure!(l.got_pieces.is_empty() && l.got_ports.is_empty(), "message out of a too long one", "{:?} {:?}", l.got_pieces.len(), l.got_ports);
            let mut skipped = want.clone();
            if follow && whole {
                skipped.push(M::Have(4));
            }
            let mut ended = want.clone();
            ended.push(M::Disconnected);
            if l.got == ended {
                let (b, eof) = read_now(&mut l.c).await;
                ensure!(eof && b.is_empty(), "reported as ended but still connected", "{b:?}");
            } else {
                same(&l.got, &skipped, "messages around a too long one")?;
                let _ = l.c.shutdown().await;
                drop(std::mem::replace(&mut l.c, dummy().await));
                rt::settle().await;
                l.drain()?;
                skipped.push(M::Disconnected);
                same(&l.got, &skipped, "messages around a too long one, after the end of the stream")?;
            }
            Ok(h(format!("{:?}", l.got)))
        })
    });
    // every bit that makes a length too long counts, wherever the stream is cut around it
    let lows: Vec<u32> = ctx.by(vec![1, 5], vec![0, 1, 2, 3, 5, 9, 13]);
    ctx.each("too-long-bits", lows.len() as u64 * 17 * 4 * 10, move |i| {
        let (cut_at, i) = ((i % 10) as usize, i / 10);
        let (first, i) = ((i % 4) as usize, i / 4);
        let (bit, low) = (15 + (i % 17) as u32, lows[(i / 17) as usize]);
        rt::run(rt::RtOpts::default(), async {
            let before = [M::Have(9), M::KeepAlive, big(1, 5), M::Choke][first].clone();
            let mut l = Link::open().await?;
            let len = (1u32 << bit) | low;
            let mut s = before.wire();
            let c = s.len() + cut_at;
            s.extend(len.to_be_bytes());
            s.extend(&raw(4, &[0, 0, 0, 3])[4..]);
            for x in 0..20 {
                s.extend(M::Have(x).wire());
            }
            for c in [&s[..c], &s[c..]] {
                if !matches!(tokio::time::timeout(Duration::from_secs(5), l.c.write_all(c)).await, Ok(Ok(()))) {
                    break;
                }
                rt::settle().await;
                l.drain()?;
            }
            rt::pass(Duration::from_secs(1)).await;
            l.drain()?;
            let mut got = l.got.clone();
            if got.last() == Some(&M::Disconnected) {
                got.pop();
            }
            let want: Vec<M> = if first == 2 { vec![] } else { vec![before.clone()] };
            same(&got, &want, &format!("messages around one of {len:#x} bytes, cut {cut_at} bytes into it"))?;
            ensure_eq!(l.got_pieces.len(), (first == 2) as usize, "pieces", "blocks around a message of {len:#x} bytes");
            Ok(h(format!("{:?}", l.got)))
        })
    });
    // a slow owner loses nothing
    ctx.explore("slow-owner", opts().fresh(false), move |ch| {
        let kind = ch.pick(4);
        let n = [33usize, 100, 200][ch.pick(3)];
        let step = [1usize << 20, 50, 13][ch.pick(3)];
        rt::run(rt::RtOpts::default(), async {
            let mut l = Link::open().await?;
            let ms: Vec<M> = (0..n).map(|i| match if kind == 3 { i % 3 } else { kind } {
                0 => M::Have(i as u32),
                1 => M::Piece(i as u32, 0, vec![i as u8; 3]),
                _ => M::Port(i as u16),
            }).collect();
            let s: Vec<u8> = ms.iter().flat_map(|m| m.wire()).collect();
            for c in s.chunks(step) {
                l.put(c).await?;
                if step < 1 << 20 {
                    rt::settle().await;
                }
            }
            for _ in 0..n {
                rt::settle().await;
                l.drain()?;
            }
            l.check(&ms)?;
            Ok(h((kind, n, step)))
        })
    });
    // arrival and processing in any order within the bound
    let dv = ctx.by(1, 2);
    ctx.explore("schedules", opts().dev(dv).fresh(false), move |ch| {
        let d = domain();
        let a = [3usize, 7, 14, 25, d.len() - 1, d.len() - 20][ch.pick(6)];
        let (s, m) = join(&d, &[a, 6, a]);
        let c = 1 + ch.pick(s.len() - 1);
        rt::run(rt::RtOpts { sched: true, select: true, ..Default::default() }, async { feed(&cut(&s, &[c]), &m, false).await })
    });
    // every value of one byte of a message (ids, length prefixes, payload)
    ctx.each("byte-values", 256 * 18, move |i| {
        let (v, pos) = ((i % 256) as u8, (i / 256) as usize);
        let mut b = M::Cancel(0x00010203, 0x04050607, 0x08090a0b).wire();
        b.resize(18, 0x3c);
        b[pos] = v;
        // the stream is followed by enough known bytes; interpret it by the specification
        b.extend(M::Have(2).wire());
        b.extend(M::Have(3).wire());
        let (want, rest) = spec_parse(&b);
        if rest {
            // an incomplete or too long message swallows the rest: nothing more may come out
            return rt::run(rt::RtOpts::default(), async {
                let mut l = Link::open().await?;
                l.put(&b).await?;
                rt::settle().await;
                l.drain()?;
                let mut g = l.got.clone();
                if g.last() == Some(&M::Disconnected) {
                    g.pop();
                }
                same(&g, &want.iter().filter(|m| !matches!(m, M::Piece(..) | M::Port(_))).cloned().collect::<Vec<_>>(), "messages before an incomplete one")?;
                Ok(h(v))
            });
        }
        rt::run(rt::RtOpts::default(), async { feed(&[b], &want, true).await })
    });
}

// ------------------------------------------------------------------ C02
/// An operation of the connection handle and the message it has to put on the wire.
async fn submit(c: &Connection, p: Peer, m: &M) -> Result<(), Fail> {
    let r = match m.clone() {
        M::Choke => c.choke(true, p).await,
        M::Unchoke => c.choke(false, p).await,
        M::Interested => c.interested(true, p).await,
        M::NotInterested => c.interested(false, p).await,
        M::Have(x) => c.have(p, x).await,
        M::Bitfield(b) => c.bitfield(p, SerializableBuf::from(b)).await,
        M::Piece(i, b, d) => c.piece(p, Piece::new(i, b, &d)).await,
        M::Cancel(i, b, l) => c.cancel(p, Request { index: i, begin: b, length: l }).await,
        M::Port(x) => c.port(p, x).await,
        _ => return Ok(()),
    };
    r.or_else(|e| fail("sending to a connected peer refused", format!("{m:?}: {e}")))
}
fn sendable() -> Vec<M> {
    good().into_iter().filter(|m| !matches!(m, M::KeepAlive | M::Request(..))).chain([big(1, 16384), M::Bitfield(vec![0xee; 5000])]).collect()
}
fn check_wire(got: &[u8], want: &[M]) -> Result<(), Fail> {
    let w: Vec<u8> = want.iter().flat_map(|m| m.wire()).collect();
    if got != w.as_slice() {
        let at = got.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
        return fail("bytes on the wire differ from the messages sent", format!("{want:?} (lengths {} and {}) differ at {at}: {:02x?} instead of {:02x?}", got.len(), w.len(), &got[at.min(got.len())..got.len().min(at + 24)], &w[at.min(w.len())..w.len().min(at + 24)]).chars().take(900).collect::<String>());
    }
    Ok(())
}
fn c02(ctx: &mut Ctx) {
    // every message over boundary values: encoding and decoding
    let vals: Vec<u32> = [0u32, 1, 2, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 0x00ff00ff, 0x01020304, 0x7fffffff, 0x80000000, 0xfffffffe, u32::MAX].to_vec();
    let nv = vals.len() as u64;
    ctx.each("encode", nv * nv * nv * 3, move |i| {
        let v = |k: u64| vals[(i / 3 / nv.pow(k as u32) % nv) as usize];
        let (a, b, c) = (v(0), v(1), v(2));
        let m = match i % 3 {
            0 => M::Request(a, b, c),
            1 => M::Cancel(a, b, c),
            _ => M::Piece(a, b, c.to_be_bytes().repeat((c % 7) as usize)),
        };
        encode_decode(&m)
    });
    ctx.each("encode-have-port", 65536 * 2, move |i| {
        encode_decode(&if i < 65536 { M::Port(i as u16) } else { M::Have((i as u32 & 0xffff) << ((i % 3) * 8)) })
    });
    ctx.each("encode-lengths", ctx.by(600, 4000), move |i| {
        let n = (i / 2) as usize * if i % 4 < 2 { 1 } else { 9 };
        let b: Vec<u8> = (0..n).map(|x| (x * 7 + i as usize) as u8).collect();
        encode_decode(&if i % 2 == 0 { M::Bitfield(b) } else { M::Piece(i as u32, n as u32, b) })
    });
    // sequences of operations of the connection handle on two peers
    let n = sendable().len() as u64;
    let depth = ctx.by(3, 4);
    ctx.each("sequences", n.pow(depth), move |i| {
        let d = sendable();
        let ms: Vec<M> = (0..depth).map(|k| d[(i / n.pow(k) % n) as usize].clone()).collect();
        rt::run(rt::RtOpts::default(), async {
            let mut w = Net::new(2).await;
            let mut a = w.connect(0).await?;
            let mut b = w.connect(1).await?;
            let p = w.remotes[0].peer();
            for (k, m) in ms.iter().enumerate() {
                submit(&w.con, p, m).await?;
                if (i as usize + k) % 2 == 0 {
                    rt::settle().await;
                }
            }
            // the other peer gets its own
            submit(&w.con, w.remotes[1].peer(), &M::Have(1)).await?;
            rt::settle().await;
            let (x, eof) = read_now(&mut a).await;
            ensure!(!eof, "connection closed", "");
            check_wire(&x, &ms)?;
            let (y, eof) = read_now(&mut b).await;
            ensure!(!eof, "connection closed", "");
            check_wire(&y, &[M::Have(1)])?;
            Ok(h(x))
        })
    });
    // every message type through the connection task, incl. those the handle never sends
    ctx.explore("task", opts().fresh(false), move |ch| {
        let g = good();
        let ms = [g[ch.pick(g.len())].clone(), g[ch.pick(g.len())].clone()];
        rt::run(rt::RtOpts::default(), async {
            let mut l = Link::open().await?;
            for m in &ms {
                let _ = l.send.as_ref().unwrap().send(m.real()).await;
            }
            rt::settle().await;
            let (x, eof) = read_now(&mut l.c).await;
            ensure!(!eof, "connection closed", "");
            check_wire(&x, &ms)?;
            Ok(h(x))
        })
    });
    // the remote reads late and in small portions, sends meanwhile
    ctx.explore("back-pressure", opts().fresh(false), move |ch| {
        let n = [20usize, 60][ch.pick(2)];
        let portion = [1usize << 20, 100_000, 4096][ch.pick(3)];
        // a small socket buffer cuts messages
        let (sndbuf, size) = [(0, 16384), (2304, 16384), (2304, 5000), (9000, 16001)][ch.pick(4)];
        sys::with(|e| e.sndbuf = sndbuf);
        let talk = ch.pick(2) == 1;
        let close = ch.pick(2) == 1;
        // how long the remote takes nothing, before it starts and in the middle
        let stall = Duration::from_secs(if close { 0 } else { [0, 30, 1000][ch.pick(3)] });
        rt::run(rt::RtOpts::default(), async {
            let mut l = Link::open().await?;
            let ms: Vec<M> = (0..n).flat_map(|i| [big(i as u32, size), M::Have(i as u32)]).collect();
            let tx = l.send.take().unwrap();
            let real: Vec<Message> = ms.iter().map(|m| m.real()).collect();
            let j = tokio::spawn(async move {
                for m in real {
                    if tx.send(m).await.is_err() {
                        return None;
                    }
                }
                Some(tx)
            });
            rt::settle().await;
            let mut want = vec![];
            if talk {
                // a client that is blocked sending must go on receiving
                for i in 0..40 {
                    l.put(&M::Have(i).wire()).await?;
                    want.push(M::Have(i));
                    rt::settle().await;
                    l.drain()?;
                }
                l.check(&want)?;
            }
            let mut got = vec![];
            if close {
                let (b, _) = read_some(&mut l.c, 50_000).await;
                got.extend(b);
                // whatever arrived is a prefix; the end is reported once
                let w: Vec<u8> = ms.iter().flat_map(|m| m.wire()).collect();
                ensure!(w.starts_with(&got), "bytes on the wire differ from the messages sent", "prefix of {}", got.len());
                drop(std::mem::replace(&mut l.c, dummy().await));
                rt::pass(Duration::from_secs(1)).await;
                l.drain()?;
                want.push(M::Disconnected);
                l.check(&want)?;
                ensure!(j.is_finished(), "the sender of a closed connection hangs", "");
                return Ok(h(got.len()));
            }
            rt::pass(stall).await;
            for k in 0..4000 {
                let (b, eof) = read_some(&mut l.c, portion).await;
                ensure!(!eof, "connection closed", "");
                let none = b.is_empty();
                got.extend(b);
                rt::settle().await;
                if none && j.is_finished() {
                    break;
                }
                if k == 1 {
                    rt::pass(stall).await;
                }
            }
            check_wire(&got, &ms)?;
            Ok(h(got.len()))
        })
    });
    // more messages than fit the queues of the client, submitted through the handle; the remote reads late and slowly
    ctx.explore("many messages", opts().fresh(false), move |ch| {
        let n = [33usize, 70, 200][ch.pick(3)];
        let kind = ch.pick(3);
        let late = [0u64, 1, 500][ch.pick(3)];
        let portion = [usize::MAX, 70_000, 3000][ch.pick(3)];
        let sndbuf = [0, 2304][ch.pick(2)];
        sys::with(|e| e.sndbuf = sndbuf);
        rt::run(rt::RtOpts { poll_limit: 2_000_000, ..Default::default() }, async {
            let mut w = Net::new(1).await;
            let mut c = w.connect(0).await?;
            let p = w.remotes[0].peer();
            let ms: Vec<M> = (0..n as u32)
                .map(|i| match kind {
                    0 => M::Have(i),
                    1 => big(i, if i % 3 == 0 { 16384 } else { 3000 }),
                    _ => [M::Choke, M::Have(i), M::Cancel(i, 0, 16384), big(i, 16384), M::Unchoke, M::Port(i as u16)][i as usize % 6].clone(),
                })
                .collect();
            let done = std::cell::Cell::new(false);
            let total: usize = ms.iter().map(|m| m.wire().len()).sum();
            let send = async {
                for m in &ms {
                    submit(&w.con, p, m).await?;
                }
                done.set(true);
                Ok(())
            };
            let read = async {
                rt::pass(Duration::from_millis(late)).await;
                let mut got = vec![];
                let mut idle = 0;
                while got.len() < total && idle < 20 {
                    let (b, eof) = read_some(&mut c, portion).await;
                    ensure!(!eof, "connection closed", "");
                    idle = if b.is_empty() { idle + 1 } else { 0 };
                    got.extend(b);
                    rt::settle().await;
                }
                // nothing follows
                got.extend(read_now(&mut c).await.0);
                Ok(got)
            };
            let (s, got) = tokio::join!(tokio::time::timeout(Duration::from_secs(60), send), read);
            s.unwrap_or(Ok(()))?;
            check_wire(&got?, &ms)?;
            ensure!(done.get(), "submitting a message hangs", "{n} messages");
            Ok(h((n, kind)))
        })
    });
    let dv = ctx.by(1, 2);
    ctx.explore("schedules", opts().dev(dv).fresh(false), move |ch| {
        let d = sendable();
        let a = d[ch.pick(d.len())].clone();
        rt::run(rt::RtOpts { sched: true, select: true, preempt: true, ..Default::default() }, async {
            let mut w = Net::new(1).await;
            let mut c = w.connect(0).await?;
            let p = w.remotes[0].peer();
            let ms = [a.clone(), M::Have(3), a.clone()];
            for m in &ms {
                submit(&w.con, p, m).await?;
                tokio::task::yield_now().await;
            }
            let _ = c.write_all(&M::Have(4).wire()).await;
            rt::settle().await;
            check_wire(&read_now(&mut c).await.0, &ms)?;
            same(&w.drain(0), &[M::Have(4)], "messages received meanwhile")?;
            Ok(h(a))
        })
    });
}
fn encode_decode(m: &M) -> R {
    let b = m.real().into_bytes();
    check_wire(&b, &[m.clone()])?;
    match Message::from_buf(&b) {
        Some(r) => ensure!(r == m.real(), "decoding gives another message", "{m:?}: {r:?}"),
        None => return fail("decoding refuses a message of our own", format!("{m:?}")),
    }
    // trailing bytes belong to the next message
    let mut c = b.clone();
    c.extend([0, 0, 0, 1, 2]);
    match Message::from_buf(&c) {
        Some(r) => ensure!(r == m.real(), "decoding runs into the next message", "{m:?}: {r:?}"),
        None => return fail("decoding refuses a message followed by another", format!("{m:?}")),
    }
    Ok(h(b))
}

// ------------------------------------------------------------------ C03
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Stay,
    Close,
    Reset,
}
/// The remote answers with `chunks`; `ok`: must the connection come to life?
async fn answer(chunks: &[Vec<u8>], gap: u64, end: End, after: &[u8], want: Option<&[M]>) -> R {
    let mut w = Net::new(1).await;
    let p = w.remotes[0].peer();
    w.con.connect(p);
    let mut c = w.remotes[0].accept_raw().await?;
    ensure!(w.remotes[0].l.is_some(), "", "");
    let mut dead = false;
    for x in chunks {
        dead |= c.write_all(x).await.is_err();
        if gap > 0 {
            rt::pass(Duration::from_millis(gap)).await;
        }
    }
    if !after.is_empty() {
        dead |= c.write_all(after).await.is_err();
    }
    match want {
        Some(m) => {
            ensure!(!dead, "connection closed although the handshake matches", "");
            rt::settle().await;
            let g = w.drain(0);
            same(&g, m, "messages after the handshake")?;
            let _ = c.write_all(&M::Have(0x55).wire()).await;
            rt::settle().await;
            same(&w.drain(0), &[M::Have(0x55)], "a message after the handshake")?;
            submit(&w.con, p, &M::Have(7)).await?;
            rt::settle().await;
            check_wire(&read_now(&mut c).await.0, &[M::Have(7)])?;
        }
        None => {
            // a message sent on regardless must not get anywhere
            if end == End::Stay {
                let _ = c.write_all(&M::Have(0x55).wire()).await;
            }
            let mut c = Some(c);
            match end {
                End::Stay => (),
                End::Close => {
                    let mut x = c.take().unwrap();
                    let (b, _) = read_now(&mut x).await;
                    ensure!(b.is_empty(), "messages sent before the handshake is complete", "{b:?}");
                    let _ = x.shutdown().await;
                    rt::settle().await;
                }
                End::Reset => {
                    drop(c.take());
                }
            }
            let t0 = tokio::time::Instant::now();
            let mut g = w.drain(0);
            while g.is_empty() && t0.elapsed() < Duration::from_secs(120) {
                rt::pass(Duration::from_secs(1)).await;
                g = w.drain(0);
            }
            same(&g, &[M::Unreachable], "a peer without a matching handshake")?;
            rt::pass(Duration::from_secs(120)).await;
            same(&w.drain(0), &[], "after the peer was reported unreachable")?;
            if let Some(mut c) = c {
                let (b, eof) = read_now(&mut c).await;
                ensure!(b.is_empty(), "messages sent to a peer without a matching handshake", "{b:?}");
                ensure!(eof, "connection without a matching handshake kept open", "");
            }
            ensure!(w.con.have(p, 1).await.is_err(), "sending to an unreachable peer is accepted", "");
        }
    }
    Ok(h(format!("{want:?}{end:?}{}", chunks.len())))
}
fn c03(ctx: &mut Ctx) {
    let full = handshake(IH, [b'r'; 20]);
    // own handshake: every byte value in both ids
    ctx.each("own", 256, move |i| {
        let ih: [u8; 20] = std::array::from_fn(|j| (i as u8).wrapping_add(13u8.wrapping_mul(j as u8)));
        let me: [u8; 20] = std::array::from_fn(|j| (i as u8).wrapping_sub(29u8.wrapping_mul(j as u8)));
        rt::run(rt::RtOpts::default(), async {
            let mut w = Net::with(1, ih, me, 16384, 16384).await;
            let p = w.remotes[0].peer();
            w.con.connect(p);
            let mut c = w.remotes[0].accept_silent().await?;
            rt::settle().await;
            let (b, eof) = read_now(&mut c).await;
            ensure!(!eof, "connection closed", "");
            ensure_eq!(b, handshake(ih, me).to_vec(), "wrong handshake sent", "handshake");
            rt::pass(Duration::from_secs(5)).await;
            ensure!(read_now(&mut c).await.0.is_empty(), "more than the handshake sent before the answer", "");
            let _ = c.write_all(&handshake(ih, [3; 20])).await;
            let _ = c.write_all(&M::Have(1).wire()).await;
            rt::settle().await;
            same(&w.drain(0), &[M::Have(1)], "matching handshake")?;
            Ok(h(b))
        })
    });
    // one byte of the reply changed to every (some) other value
    let all = true;
    ctx.each("deviations", 68 * if all { 255 } else { 12 }, move |i| {
        let n = if all { 255 } else { 12 };
        let (pos, k) = ((i / n) as usize, i % n);
        let x = if all { k as u8 + 1 } else { [1, 2, 4, 8, 16, 32, 64, 128, 255, 0x20, 0x7f, 0xaa][k as usize] };
        let mut b = full;
        b[pos] ^= x;
        let ok = (20..28).contains(&pos) || pos >= 48;
        rt::run(rt::RtOpts::default(), async {
            if ok {
                answer(&[b.to_vec()], 0, End::Stay, &M::Unchoke.wire(), Some(&[M::Unchoke])).await
            } else {
                answer(&[b.to_vec()], 0, End::Stay, &M::Unchoke.wire(), None).await
            }
        })
    });
    // both ids wrong in ways one byte cannot show: swapped, shifted, own id, all zero, first n bytes only
    ctx.each("other-hash", 20 + 5, move |i| {
        let ih: [u8; 20] = match i {
            0 => ME,
            1 => [0; 20],
            2 => [0xff; 20],
            3 => std::array::from_fn(|j| IH[19 - j]),
            4 => std::array::from_fn(|j| IH[(j + 1) % 20]),
            n => std::array::from_fn(|j| if (j as u64) < n - 5 { IH[j] } else { !IH[j] }),
        };
        rt::run(rt::RtOpts::default(), async { answer(&[handshake(ih, IH).to_vec()], 0, End::Stay, &M::Unchoke.wire(), None).await })
    });
    // any peer id and any reserved bits will do
    ctx.each("any-id", 9 * 5, move |i| {
        let id: [u8; 20] = match i % 9 {
            0 => [0; 20],
            1 => [0xff; 20],
            2 => IH,
            3 => [b' '; 20],
            4 => std::array::from_fn(|j| if j < 2 { 0 } else { b'x' }),
            5 => std::array::from_fn(|j| if j < 8 { b'-' } else { 0 }),
            6 => std::array::from_fn(|j| if j == 0 { 0 } else { 0xff }),
            7 => *b"BitTorrent protocol\x13",
            _ => std::array::from_fn(|j| 0xc0 | j as u8),
        };
        let mut b = handshake(IH, id);
        b[20..28].copy_from_slice(&[[0; 8], [0xff; 8], [0x80, 0, 0, 0, 0, 0x10, 0, 5], [0, 0, 0, 0, 0, 0, 0, 1], [b'd'; 8]][(i / 9) as usize]);
        rt::run(rt::RtOpts::default(), async { answer(&[b.to_vec()], 0, End::Stay, &M::Unchoke.wire(), Some(&[M::Unchoke])).await })
    });
    // every truncation, then end of stream, reset, or silence
    ctx.explore("truncations", opts().fresh(false), move |ch| {
        let n = ch.pick(68);
        let e = [End::Close, End::Reset, End::Stay][ch.pick(3)];
        let gap = [0, 1][ch.pick(2)];
        rt::run(rt::RtOpts::default(), async {
            let c = if n == 0 { vec![] } else { vec![full[..n].to_vec()] };
            // silence: what follows must not complete the handshake
            let mut w = answer_short(&c, gap, e).await?;
            let _ = &mut w;
            Ok(h((n, format!("{e:?}"))))
        })
    });
    // every split, also joined with the messages that follow
    let tail: Vec<u8> = [M::Bitfield(vec![0xc0]).wire(), M::Unchoke.wire()].concat();
    let want = [M::Bitfield(vec![0xc0]), M::Unchoke];
    let s: Vec<u8> = full.iter().copied().chain(tail.iter().copied()).collect();
    let l = s.len() as u64;
    let cuts = ctx.by(3u32, 4);
    let every = cuttings(l as usize, cuts as usize);
    ctx.each("splits", every.len() as u64, move |i| {
        let c: Vec<usize> = every[i as usize].iter().map(|x| *x as usize).collect();
        rt::run(rt::RtOpts::default(), async { answer(&cut(&s, &c), 1, End::Stay, &[], Some(&want)).await })
    });
    ctx.explore("slow", opts().fresh(false), move |ch| {
        let step = [1usize, 2, 17, 34, 67][ch.pick(5)];
        let total = [500u64, 3000][ch.pick(2)];
        let c: Vec<Vec<u8>> = full.chunks(step).map(|c| c.to_vec()).collect();
        let gap = (total / c.len() as u64).max(1);
        rt::run(rt::RtOpts::default(), async { answer(&c, gap, End::Stay, &M::Choke.wire(), Some(&[M::Choke])).await })
    });
    // nobody listens
    ctx.explore("refused", opts().fresh(false), move |ch| {
        let again = ch.pick(3);
        rt::run(rt::RtOpts::default(), async {
            let mut w = Net::new(1).await;
            w.remotes[0].l = None;
            let p = w.remotes[0].peer();
            for _ in 0..=again {
                w.con.connect(p);
                rt::pass(Duration::from_secs(1)).await;
                same(&w.drain(0), &[M::Unreachable], "a peer that refuses the connection")?;
            }
            rt::pass(Duration::from_secs(120)).await;
            same(&w.drain(0), &[], "after the peer was reported unreachable")?;
            w.remotes[0].listen().await;
            let mut c = w.connect(0).await?;
            let _ = c.write_all(&M::Have(1).wire()).await;
            rt::settle().await;
            same(&w.drain(0), &[M::Have(1)], "a peer that accepts after all")?;
            Ok(h(again))
        })
    });
    let dv = ctx.by(1, 2);
    ctx.explore("schedules", opts().dev(dv).fresh(false), move |ch| {
        let c = 1 + ch.pick(68 + 9);
        let bad = ch.pick(2) == 1;
        let mut s: Vec<u8> = full.to_vec();
        if bad {
            s[40] ^= 1;
        }
        s.extend(M::Have(1).wire());
        rt::run(rt::RtOpts { sched: true, select: true, ..Default::default() }, async {
            let w = [M::Have(1)];
            answer(&cut(&s, &[c.min(76)]), 0, End::Stay, &[], if bad { None } else { Some(&w) }).await
        })
    });
}
/// Like `answer` for an incomplete reply, without sending anything more.
async fn answer_short(chunks: &[Vec<u8>], gap: u64, end: End) -> R {
    let mut w = Net::new(1).await;
    let p = w.remotes[0].peer();
    w.con.connect(p);
    let mut c = if end == End::Reset { w.remotes[0].accept_silent().await? } else { w.remotes[0].accept_raw().await? };
    for x in chunks {
        let _ = c.write_all(x).await;
        if gap > 0 {
            rt::settle().await;
        }
    }
    let mut c = Some(c);
    if end != End::Stay {
        drop(c.take());
    }
    let t0 = tokio::time::Instant::now();
    let mut g = vec![];
    while g.is_empty() && t0.elapsed() < Duration::from_secs(120) {
        rt::pass(Duration::from_secs(1)).await;
        g = w.drain(0);
    }
    same(&g, &[M::Unreachable], "a peer with an incomplete handshake")?;
    rt::pass(Duration::from_secs(120)).await;
    same(&w.drain(0), &[], "after the peer was reported unreachable")?;
    if let Some(mut c) = c {
        let (b, eof) = read_now(&mut c).await;
        ensure!(b.is_empty(), "messages sent to a peer with an incomplete handshake", "{b:?}");
        ensure!(eof, "connection with an incomplete handshake kept open", "");
    }
    Ok(0)
}

// ------------------------------------------------------------------ C04
/// What the owner has to be told about one peer.
#[derive(Default)]
struct Side {
    c: Option<TcpStream>,
    /// exact messages still to be received
    due: Vec<M>,
    conns: u32,
    /// locally disconnected connections may still have had messages in the queue
    maybe: Vec<M>,
}
fn c04_history(ch: &Ch, depth: usize, peers: usize, lazy: bool, o: rt::RtOpts) -> R {
    let ch = ch.clone();
    rt::run(o, async move {
        let mut w = Net::new(peers).await;
        let mut s: Vec<Side> = (0..peers).map(|_| Side::default()).collect();
        let mut val = 0u32;
        for _ in 0..depth {
            let i = if peers > 1 { ch.pick(peers) } else { 0 };
            let p = w.remotes[i].peer();
            let op = ch.pick(7);
            val += 1;
            match op {
                0 => {
                    // connect
                    ch.note(|| format!("connect {i}"));
                    w.con.connect(p);
                    let pending_end = s[i].due.contains(&M::Disconnected);
                    if s[i].c.is_none() && !pending_end {
                        let c = w.remotes[i].accept().await?;
                        s[i].c = Some(c);
                        s[i].conns += 1;
                    } else if s[i].c.is_none() {
                        // the owner was not told yet: it may refuse, or open a new one
                        rt::settle().await;
                        if let Some(mut c) = w.remotes[i].try_accept().await {
                            w.remotes[i].shake(&mut c).await?;
                            s[i].c = Some(c);
                            s[i].conns += 1;
                        }
                    } else {
                        rt::settle().await;
                        ensure!(w.remotes[i].try_accept().await.is_none(), "second connection to a connected peer", "");
                    }
                }
                1 => {
                    let Some(c) = s[i].c.as_mut() else { return Ok(1) };
                    ch.note(|| format!("remote {i} sends have {val}"));
                    let _ = c.write_all(&M::Have(val).wire()).await;
                    s[i].due.push(M::Have(val));
                }
                2 => {
                    let Some(mut c) = s[i].c.take() else { return Ok(1) };
                    ch.note(|| format!("remote {i} closes"));
                    let _ = read_now(&mut c).await;
                    let _ = c.shutdown().await;
                    rt::settle().await;
                    s[i].due.push(M::Disconnected);
                }
                3 => {
                    // reset: the remote goes away without having read what was sent to it
                    let Some(c) = s[i].c.take() else { return Ok(1) };
                    ch.note(|| format!("remote {i} resets"));
                    rt::settle().await;
                    let _ = w.con.have(p, val).await;
                    rt::settle().await;
                    drop(c);
                    rt::settle().await;
                    s[i].due.push(M::Disconnected);
                }
                4 => {
                    ch.note(|| format!("local disconnect {i}"));
                    w.con.disconnect(&p);
                    if let Some(mut c) = s[i].c.take() {
                        rt::settle().await;
                        let (_, eof) = read_now(&mut c).await;
                        ensure!(eof, "locally disconnected but still connected", "");
                        s[i].c = None;
                        // what was received before stays valid; afterwards nothing more may come
                    }
                    let due = std::mem::take(&mut s[i].due);
                    s[i].maybe.extend(due);
                }
                5 => {
                    // local send; fails or is lost when there is no connection
                    ch.note(|| format!("send to {i}"));
                    let r = w.con.have(p, val).await;
                    if let Some(c) = s[i].c.as_mut() {
                        ensure!(r.is_ok(), "sending to a connected peer refused", "");
                        rt::settle().await;
                        let (b, _) = read_now(c).await;
                        check_wire(&b, &[M::Have(val)])?;
                    }
                }
                _ => {
                    // remote sends something broken
                    let Some(c) = s[i].c.as_mut() else { return Ok(1) };
                    ch.note(|| format!("remote {i} sends junk"));
                    let _ = c.write_all(&raw(42, &[1, 2, 3])).await;
                }
            }
            if !lazy {
                rt::settle().await;
                check_sides(&mut w, &mut s).await?;
            } else if ch.pick(2) == 1 {
                ch.note(|| "owner reads".into());
                rt::settle().await;
                check_sides(&mut w, &mut s).await?;
            }
        }
        rt::settle().await;
        check_sides(&mut w, &mut s).await?;
        // whatever happened, every peer can be connected (again) and works
        for i in 0..peers {
            let p = w.remotes[i].peer();
            if s[i].c.is_none() {
                w.con.connect(p);
                s[i].c = Some(w.remotes[i].accept().await?);
            } else {
                w.con.connect(p);
                rt::settle().await;
                ensure!(w.remotes[i].try_accept().await.is_none(), "second connection to a connected peer", "");
            }
            let _ = s[i].c.as_mut().unwrap().write_all(&M::Have(99).wire()).await;
            s[i].due.push(M::Have(99));
            rt::settle().await;
            check_sides(&mut w, &mut s).await?;
            let c = s[i].c.as_mut().unwrap();
            let _ = read_now(c).await;
            ensure!(w.con.have(p, 98).await.is_ok(), "sending to a connected peer refused", "");
            rt::settle().await;
            check_wire(&read_now(c).await.0, &[M::Have(98)])?;
        }
        rt::pass(Duration::from_secs(60)).await;
        check_sides(&mut w, &mut s).await?;
        Ok(h(s.iter().map(|x| x.conns).collect::<Vec<_>>()))
    })
}
async fn check_sides(w: &mut Net, s: &mut [Side]) -> Result<(), Fail> {
    // the owner's queue is bounded, so it may take several rounds
    let mut got: Vec<Vec<M>> = vec![vec![]; s.len()];
    for _ in 0..3 {
        for (i, g) in got.iter_mut().enumerate() {
            g.extend(w.drain(i));
        }
        rt::settle().await;
    }
    for (x, g) in s.iter_mut().zip(got) {
        // leftovers of locally closed connections may come first, in order
        let k = g.len().saturating_sub(x.due.len());
        let mut rest = x.maybe.iter();
        let lead = g[..k].iter().all(|m| rest.any(|y| y == m));
        if !lead || g[k..] != x.due[..] {
            same(&g, &x.due, if g.len() < x.due.len() { "the owner was not told" } else { "messages of a connection" })?;
        }
        x.due.clear();
        x.maybe.clear();
    }
    Ok(())
}
fn c04(ctx: &mut Ctx) {
    let d1 = ctx.by(6, 7);
    ctx.explore("one-peer", opts().fresh(false), move |ch| c04_history(ch, d1, 1, false, rt::RtOpts::default()));
    let d2 = ctx.by(4, 5);
    ctx.explore("two-peers", opts().fresh(false), move |ch| c04_history(ch, d2, 2, false, rt::RtOpts::default()));
    let d3 = ctx.by(5, 6);
    ctx.explore("lazy-owner", opts().fresh(false), move |ch| c04_history(ch, d3, 1, true, rt::RtOpts::default()));
    let dv = ctx.by(1, 2);
    let d4 = ctx.by(4, 4);
    ctx.explore("schedules", opts().dev(dv).fresh(false), move |ch| c04_history(ch, d4, 1, false, rt::RtOpts { sched: true, select: true, preempt: true, ..Default::default() }));
    // the owner waits while the connection ends, and may see each message before its sender goes on
    let dp = ctx.by(2, 3);
    ctx.explore("waiting-owner", opts().dev(dp).fresh(false), move |ch| {
        let ends = [ch.pick(7), ch.pick(7)];
        rt::run(rt::RtOpts { sched: true, preempt: true, ..Default::default() }, async {
            let mut w = Net::new(1).await;
            let p = w.remotes[0].peer();
            let a = w.remotes[0].addr;
            for end in ends {
                let mut r = Remote { addr: a, l: w.remotes[0].l.take(), ih: IH, client: ME };
                if end == 0 {
                    r.l = None;
                } else if r.l.is_none() {
                    r.listen().await;
                }
                ch.note(|| ["refused", "closed before the handshake", "another info-hash", "silent", "closed", "a message, then closed", "reset"][end].into());
                w.con.connect(p);
                let remote = tokio::spawn(async move {
                    let Remote { l: Some(_), .. } = r else { return r };
                    let mut c = r.accept_raw().await.expect("no connection opened");
                    match end {
                        1 => (),
                        2 => {
                            let _ = c.write_all(&handshake([9; 20], [b'r'; 20])).await;
                        }
                        3 => tokio::time::sleep(Duration::from_secs(30)).await,
                        e => {
                            let _ = c.write_all(&handshake(IH, [b'r'; 20])).await;
                            tokio::time::sleep(Duration::from_secs(1)).await;
                            if e == 5 {
                                let _ = c.write_all(&M::Have(7).wire()).await;
                            }
                            if e != 6 {
                                let _ = c.shutdown().await;
                            }
                        }
                    }
                    r
                });
                let mut got = vec![];
                let mut sent = false;
                while !matches!(got.last(), Some(M::Unreachable | M::Disconnected)) {
                    match tokio::time::timeout(Duration::from_secs(2), w.con.recv()).await {
                        Ok(m) => got.push(M::from(m.message)),
                        // once the connection stands: something the remote never reads
                        Err(_) if end == 6 && !sent => {
                            sent = true;
                            let _ = w.con.have(p, 1).await;
                        }
                        Err(_) if end == 3 && got.is_empty() && !sent => {
                            sent = true;
                            tokio::time::sleep(Duration::from_secs(10)).await;
                        }
                        Err(_) => match tokio::time::timeout(Duration::from_secs(60), w.con.recv()).await {
                            Ok(m) => got.push(M::from(m.message)),
                            Err(_) => break,
                        },
                    }
                }
                let want = match end {
                    0..=3 => vec![M::Unreachable],
                    5 => vec![M::Have(7), M::Disconnected],
                    _ => vec![M::Disconnected],
                };
                same(&got, &want, "what the waiting owner was told")?;
                w.remotes[0] = remote.await.expect("remote");
            }
            if w.remotes[0].l.is_none() {
                w.remotes[0].listen().await;
            }
            let mut c = w.connect(0).await?;
            let _ = c.write_all(&M::Have(5).wire()).await;
            rt::pass(Duration::from_secs(60)).await;
            same(&w.drain(0), &[M::Have(5)], "after connecting again")?;
            Ok(h(ends))
        })
    });
    // the client itself ends the connection, before or after the remote did: no report about that one is
    // left over for the owner, not even one that could be taken for the end of the next connection
    let dl = ctx.by(3, 5);
    ctx.explore("local-end", opts().dev(dl).fresh(false), move |ch| {
        // what the remote does before
        let before = ch.pick(4);
        let again = ch.pick(2) == 1;
        let queued = if again { ch.pick(3) } else { 0 };
        rt::run(rt::RtOpts::default(), async {
            let mut w = Net::new(1).await;
            let p = w.remotes[0].peer();
            let mut c = w.connect(0).await?;
            rt::decide(rt::RtOpts { sched: true, select: true, preempt: true, ..Default::default() });
            let mut maybe = vec![];
            match before {
                1 => {
                    let _ = c.write_all(&M::Have(1).wire()).await;
                    maybe.push(M::Have(1));
                }
                2 | 3 => {
                    let _ = c.shutdown().await;
                    if before == 3 {
                        rt::settle().await;
                    }
                }
                _ => (),
            }
            w.con.disconnect(&p);
            if !again {
                rt::settle().await;
                rt::decide(rt::RtOpts::default());
                let (_, eof) = read_now(&mut c).await;
                ensure!(eof, "locally disconnected but still connected", "");
                if before >= 2 {
                    // the remote's end may have been noticed first
                    maybe.push(M::Disconnected);
                }
                let g = w.drain(0);
                if g != maybe {
                    same(&g, &[], "what the owner was told after ending the connection itself")?;
                }
                c = w.connect(0).await?;
            } else {
                w.con.connect(p);
                for v in 0..queued as u32 {
                    ensure!(w.con.have(p, v).await.is_ok(), "sending to a peer that is being connected refused", "");
                }
                let mut g = w.drain(0);
                c = w.remotes[0].accept().await?;
                rt::decide(rt::RtOpts::default());
                g.extend(w.drain(0));
                if g != maybe {
                    same(&g, &[], "what the owner was told while connecting again")?;
                }
                let due: Vec<M> = (0..queued as u32).map(M::Have).collect();
                rt::settle().await;
                check_wire(&read_now(&mut c).await.0, &due)?;
            }
            w.con.connect(p);
            let _ = c.write_all(&M::Have(5).wire()).await;
            rt::settle().await;
            ensure!(w.remotes[0].try_accept().await.is_none(), "second connection to a connected peer", "");
            ensure!(w.con.have(p, 98).await.is_ok(), "sending to a connected peer refused", "");
            rt::pass(Duration::from_secs(60)).await;
            check_wire(&read_now(&mut c).await.0, &[M::Have(98)])?;
            same(&w.drain(0), &[M::Have(5)], "after connecting again")?;
            Ok(h((before, again, queued)))
        })
    });
    // the report about an attempt that failed is still on its way when the owner ends it and tries again
    ctx.explore("failed-end", opts().dev(dl).fresh(false), move |ch| {
        let how = ch.pick(4);
        let queued = ch.pick(3);
        rt::run(rt::RtOpts::default(), async {
            let mut w = Net::new(1).await;
            let p = w.remotes[0].peer();
            if how == 0 {
                w.remotes[0].l = None;
            }
            w.con.connect(p);
            match how {
                0 => (),
                1 | 2 => {
                    let mut c = w.remotes[0].accept_raw().await?;
                    if how == 2 {
                        let _ = c.write_all(&handshake([9; 20], [b'r'; 20])).await;
                    }
                }
                _ => {
                    let c = w.remotes[0].accept_raw().await?;
                    rt::pass(Duration::from_secs(130)).await;
                    drop(c);
                }
            }
            rt::settle().await;
            rt::decide(rt::RtOpts { sched: true, select: true, preempt: true, ..Default::default() });
            w.con.disconnect(&p);
            if how == 0 {
                w.remotes[0].listen().await;
            }
            w.con.connect(p);
            for v in 0..queued as u32 {
                ensure!(w.con.have(p, v).await.is_ok(), "sending to a peer that is being connected refused", "");
            }
            let mut g = w.drain(0);
            let mut c = w.remotes[0].accept().await?;
            rt::decide(rt::RtOpts::default());
            g.extend(w.drain(0));
            same(&g, &[], "what the owner was told while connecting again")?;
            rt::settle().await;
            check_wire(&read_now(&mut c).await.0, &(0..queued as u32).map(M::Have).collect::<Vec<_>>())?;
            let _ = c.write_all(&M::Have(5).wire()).await;
            rt::settle().await;
            ensure!(w.con.have(p, 98).await.is_ok(), "sending to a connected peer refused", "");
            rt::pass(Duration::from_secs(60)).await;
            check_wire(&read_now(&mut c).await.0, &[M::Have(98)])?;
            same(&w.drain(0), &[M::Have(5)], "after connecting again")?;
            drop(c);
            rt::pass(Duration::from_secs(1)).await;
            same(&w.drain(0), &[M::Disconnected], "the end of the second connection")?;
            Ok(h((how, queued)))
        })
    });
    // a message cut off by the end of the connection is never delivered, everything before is
    ctx.explore("cut-off", opts().fresh(false), move |ch| {
        let g = good();
        let m = g[ch.pick(g.len())].clone();
        let b = m.wire();
        let n = ch.pick(b.len().min(20));
        let reset = ch.pick(2) == 1;
        rt::run(rt::RtOpts::default(), async {
            let mut l = Link::open().await?;
            l.put(&M::Have(1).wire()).await?;
            l.put(&b[..n]).await?;
            if reset {
                let _ = l.send.as_ref().unwrap().send(Message::Choke).await;
                rt::settle().await;
                drop(std::mem::replace(&mut l.c, dummy().await));
            } else {
                let _ = l.c.shutdown().await;
            }
            rt::pass(Duration::from_secs(1)).await;
            l.drain()?;
            l.check(&[M::Have(1), M::Disconnected])?;
            rt::pass(Duration::from_secs(100)).await;
            l.drain()?;
            l.check(&[M::Have(1), M::Disconnected])?;
            ensure!(l.send.as_ref().unwrap().is_closed(), "the ended connection still takes messages", "");
            Ok(h((n, reset)))
        })
    });
    // more received messages than the owner's queue holds, then the end: all of them, then the report
    ctx.explore("full-queue", opts().fresh(false), move |ch| {
        let n = [1usize, 30, 31, 32, 33, 34, 64, 65, 100, 150][ch.pick(10)];
        let end = ch.pick(3);
        rt::run(rt::RtOpts::default(), async {
            let mut w = Net::new(1).await;
            let mut c = w.connect(0).await?;
            let p = w.remotes[0].peer();
            let mut due: Vec<M> = (0..n).map(|i| M::Have(i as u32)).collect();
            for m in &due {
                let _ = c.write_all(&m.wire()).await;
            }
            if end == 1 {
                let _ = w.con.have(p, 1).await;
                rt::settle().await;
            }
            drop(c);
            if end == 2 {
                // the client notices the end while sending, before the owner took everything received
                rt::settle().await;
                for _ in 0..40 {
                    if w.con.have(p, 1).await.is_err() {
                        break;
                    }
                    rt::settle().await;
                }
            }
            rt::pass(Duration::from_secs(1)).await;
            due.push(M::Disconnected);
            let mut g = vec![];
            for _ in 0..n + 3 {
                g.extend(w.drain(0));
                rt::settle().await;
            }
            same(&g, &due, "messages before the end, then the end")?;
            let mut c = w.connect(0).await?;
            let _ = c.write_all(&M::Have(5).wire()).await;
            rt::settle().await;
            same(&w.drain(0), &[M::Have(5)], "after connecting again")?;
            Ok(h((n, end)))
        })
    });
}

fn main() {
    mc::main(&[("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04)]);
}

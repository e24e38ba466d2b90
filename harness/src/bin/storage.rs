//! C09 piece storage round trip, C10 write completeness under faults, C11 containment, C12 file cache.
use harness::mc::{self, fail, h, opts, Ch, Ctx, Fail, R};
use harness::sys::{self, Act, Call};
use harness::{ensure, ensure_eq, rt};
use nargun::verif::fs::{FileCache, Fs, FS};
use nargun::verif::peers::connection::pending_pieces::FinishedPiece;
use nargun::verif::transcoding::metainfo::Torrent;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::time::Duration;

const BS: usize = 16384;

/// Bytes of the torrent's content: never zero, so that holes show.
fn byte(version: u8, o: usize) -> u8 {
    let mut z = (o as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ ((version as u64) << 32);
    z = (z ^ (z >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
    ((z >> 40) as u8) | 1
}
fn content(n: usize) -> Vec<u8> {
    (0..n).map(|o| byte(0, o)).collect()
}

#[derive(Clone, Debug)]
struct Layout {
    piece: usize,
    /// None: single file of that length
    files: Option<Vec<(Vec<String>, usize)>>,
    total: usize,
}
impl Layout {
    fn single(piece: usize, total: usize) -> Self {
        Layout { piece, files: None, total }
    }
    /// Files in a directory tree; `shape` varies the nesting.
    fn multi(piece: usize, lens: &[usize], shape: usize) -> Self {
        let files = lens
            .iter()
            .enumerate()
            .map(|(i, l)| {
                let mut p: Vec<String> = vec![];
                match (i + shape) % 4 {
                    0 => {}
                    1 => p.push("d".into()),
                    2 => p.extend(["d".to_string(), "e".to_string()]),
                    _ => p.extend(["f".to_string(), "d".to_string()]),
                }
                p.push(format!("file{i}"));
                (p, *l)
            })
            .collect();
        Layout { piece, files: Some(files), total: lens.iter().sum() }
    }
    fn pieces(&self) -> usize {
        self.total.div_ceil(self.piece)
    }
    fn piece_range(&self, i: usize) -> (usize, usize) {
        (i * self.piece, ((i + 1) * self.piece).min(self.total))
    }
    fn bencode(&self) -> Vec<u8> {
        let mut b = b"d8:announce10:http://t/a4:infod".to_vec();
        match &self.files {
            Some(fs) => {
                b.extend(b"5:filesl");
                for (p, l) in fs {
                    b.extend(format!("d6:lengthi{l}e4:pathl").bytes());
                    for c in p {
                        b.extend(format!("{}:", c.len()).bytes());
                        b.extend(c.as_bytes());
                    }
                    b.extend(b"ee");
                }
                b.push(b'e');
            }
            None => b.extend(format!("6:lengthi{}e", self.total).bytes()),
        }
        b.extend(format!("4:name4:name12:piece lengthi{}e6:pieces{}:", self.piece, self.pieces() * 20).bytes());
        for i in 0..self.pieces() * 20 {
            b.push((i * 7 + i / 20) as u8);
        }
        b.extend(b"ee");
        b
    }
    /// (path below the download directory, offset, length) of every file
    fn paths(&self) -> Vec<(String, usize, usize)> {
        match &self.files {
            None => vec![("name".into(), 0, self.total)],
            Some(fs) => {
                let mut at = 0;
                fs.iter()
                    .map(|(p, l)| {
                        let r = (format!("name/{}", p.join("/")), at, *l);
                        at += l;
                        r
                    })
                    .collect()
            }
        }
    }
    fn blocks(&self, data: &[u8], i: usize, padded: bool) -> Vec<Vec<u8>> {
        let (a, b) = self.piece_range(i);
        let mut v = data[a..b].to_vec();
        if padded {
            v.resize(self.piece, 0);
        }
        v.chunks(BS).map(|c| c.to_vec()).collect()
    }
}

async fn open(l: &Layout, base: &str) -> Result<FS, Fail> {
    let t = match Torrent::from_buf(&l.bencode()) {
        Ok(t) => t,
        Err(e) => return mc::fail("well-formed torrent refused", format!("{l:?}: {e}")),
    };
    Ok(FS::new(base, t.info).await)
}

/// Compares the files on disk with the expected content.
fn check_files(l: &Layout, base: &str, data: &[u8], complete: bool, written: &[bool]) -> Result<(), Fail> {
    let mut seen = BTreeMap::new();
    fn walk(d: &str, rel: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().into_owned();
                let (p, r) = (format!("{d}/{n}"), if rel.is_empty() { n.clone() } else { format!("{rel}/{n}") });
                if e.path().is_dir() {
                    walk(&p, &r, out);
                } else {
                    out.insert(r, std::fs::read(&p).unwrap_or_default());
                }
            }
        }
    }
    // the harness's own accesses are neither tracked nor faulted
    let roots = sys::with(|e| std::mem::take(&mut e.roots));
    walk(base, "", &mut seen);
    sys::with(|e| e.roots = roots.unwrap_or_default());
    for (p, off, len) in l.paths() {
        let got = seen.remove(&p);
        if complete {
            let Some(g) = &got else { return mc::fail("file missing after all pieces were written", format!("{l:?}: no file {p} (length {len})")) };
            ensure_eq!(g.len(), len, "file length wrong after all pieces were written", "{l:?}: {p}");
        }
        if let Some(g) = &got {
            ensure!(g.len() <= len, "file longer than its declared length", "{l:?}: {p} has {} bytes, declared {len}", g.len());
        }
        for (i, w) in written.iter().enumerate() {
            if !w {
                continue;
            }
            let (a, b) = l.piece_range(i);
            let (a, b) = (a.max(off), b.min(off + len));
            for o in a..b.max(a) {
                let v = got.as_ref().and_then(|g| g.get(o - off));
                ensure!(v == Some(&data[o]), "byte of a stored piece is not in its file", "{l:?}: piece {i} byte {} of {p}: {v:?}, expected {}", o - off, data[o]);
            }
        }
    }
    if let Some((p, _)) = seen.iter().next() {
        return mc::fail("unexpected file created", format!("{l:?}: {p}"));
    }
    Ok(())
}

fn perm(ch: &Ch, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut r = vec![];
    while !left.is_empty() {
        let k = ch.pick(left.len());
        r.push(left.remove(k));
    }
    r
}

/// Interesting (begin, length) ranges of a piece.
fn ranges(len: usize) -> Vec<(usize, usize)> {
    let mut cuts: Vec<usize> = if len <= 8 {
        (0..=len).collect()
    } else {
        let mut v = vec![0, 1, len - 1, len];
        let mut b = BS;
        while b < len + 2 {
            v.extend([b - 1, b, b + 1]);
            b += BS;
        }
        v.retain(|x| *x <= len);
        v
    };
    cuts.sort();
    cuts.dedup();
    let mut r = vec![];
    for (i, a) in cuts.iter().enumerate() {
        for b in &cuts[i + 1..] {
            if b - a <= BS {
                r.push((*a, b - a));
            }
        }
    }
    r
}
async fn check_reads(fs: &mut FS, l: &Layout, i: usize, data: &[u8]) -> Result<u64, Fail> {
    let (a, b) = l.piece_range(i);
    let mut n = 0;
    for (begin, len) in ranges(b - a) {
        let mut buf = vec![0u8; len];
        n += 1;
        if let Err(e) = fs.read_block(i, begin, len, &mut buf).await {
            return mc::fail("reading a stored block fails", format!("{l:?}: piece {i} begin {begin} length {len}: {e}"));
        }
        ensure!(buf[..] == data[a + begin..a + begin + len], "stored block reads back different bytes", "{l:?}: piece {i} begin {begin} length {len}");
    }
    Ok(n)
}

fn round_trip(ch: &Ch, l: Layout, padded: bool) -> R {
    let order = perm(ch, l.pieces());
    ch.note(|| format!("layout {:?}, last piece {}, write order {order:?}", l, if padded { "padded to the piece length" } else { "exact" }));
    let base = sys::scratch();
    sys::with(|e| e.jail = Some(base.clone()));
    let out = {
        let base = base.clone();
        rt::run(rt::RtOpts::default(), async move {
            let data = content(l.total);
            let mut fs = open(&l, &base).await?;
            let mut written = vec![false; l.pieces()];
            let mut reads = 0;
            for i in order {
                if let Err(e) = fs.write_piece(FinishedPiece { idx: i, data: l.blocks(&data, i, padded) }).await {
                    return mc::fail("storing a piece fails", format!("{l:?}: piece {i}: {e}"));
                }
                written[i] = true;
                for (j, w) in written.iter().enumerate() {
                    if *w {
                        reads += check_reads(&mut fs, &l, j, &data).await?;
                    }
                }
                check_files(&l, &base, &data, false, &written)?;
            }
            check_files(&l, &base, &data, true, &written)?;
            Ok::<u64, Fail>(h((format!("{l:?}"), reads)))
        })
    };
    let esc = sys::with(|e| e.escapes.clone()).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&base);
    ensure!(esc.is_empty(), "file operation outside the download directory", "{esc:?}");
    out
}

fn c09(ctx: &mut Ctx) {
    let ps: &'static [usize] = ctx.by(&[1, 2, 3][..], &[1, 2, 3, 4, 5, 7][..]);
    let max_pieces = ctx.by(4, 5);
    ctx.explore("single file, tiny pieces", opts().fresh(false), move |ch| {
        let p = ps[ch.pick(ps.len())];
        let total = 1 + ch.pick(p * max_pieces);
        let padded = ch.pick(2) == 1;
        round_trip(ch, Layout::single(p, total), padded)
    });
    let nf = ctx.by(3, 5);
    ctx.explore("file lists, tiny pieces", opts().fresh(false), move |ch| {
        let p = ps[ch.pick(ps.len())];
        let cap = (p * max_pieces).min(if nf == 3 { 7 } else { 9 });
        let n = 1 + ch.pick(nf);
        let mut lens = vec![];
        let mut left = cap;
        for _ in 0..n {
            let l = ch.pick(left + 1);
            left -= l;
            lens.push(l);
        }
        if lens.iter().sum::<usize>() == 0 {
            return Ok(0);
        }
        let padded = ch.pick(2) == 1;
        let shape = if nf == 3 { n % 2 } else { ch.pick(2) };
        round_trip(ch, Layout::multi(p, &lens, shape), padded)
    });
    // block-sized pieces: file boundaries at and around block and piece boundaries
    let bp: &'static [usize] = ctx.by(&[BS, 2 * BS, BS + BS / 2][..], &[BS, 2 * BS, BS + BS / 2, 2 * BS + 1, BS - 1, 3 * BS][..]);
    let pieces = 3;
    ctx.explore("single file, pieces of several blocks", opts().fresh(false), move |ch| {
        let p = bp[ch.pick(bp.len())];
        let mut ends: Vec<usize> = vec![];
        for k in 0..=pieces {
            for b in [0, BS, 2 * BS] {
                for d in [-1i64, 0, 1] {
                    let e = (k * p + b) as i64 + d;
                    if e >= 1 && e as usize <= (pieces + 1) * p {
                        ends.push(e as usize);
                    }
                }
            }
        }
        ends.sort();
        ends.dedup();
        let total = ends[ch.pick(ends.len())];
        if total.div_ceil(p) > 3 {
            return Ok(0);
        }
        let padded = ch.pick(2) == 1;
        round_trip(ch, Layout::single(p, total), padded)
    });
    let cuts = ctx.by(2, 3);
    let bp2: &'static [usize] = ctx.by(&[2 * BS][..], &[BS, 2 * BS, BS + BS / 2, 2 * BS + 1][..]);
    ctx.explore("file lists, pieces of several blocks", opts().fresh(false), move |ch| {
        let p = bp2[ch.pick(bp2.len())];
        let mut at: Vec<usize> = vec![1, BS - 1, BS, BS + 1, p - 1, p, p + 1, p + BS - 1, p + BS, p + BS + 1, 2 * p - 1, 2 * p];
        at.sort();
        at.dedup();
        let mut prev = 0;
        let mut lens = vec![];
        for _ in 0..=cuts {
            let opts: Vec<usize> = std::iter::once(prev).chain(at.iter().copied().filter(|a| *a > prev)).collect();
            let c = opts[ch.pick(opts.len())];
            lens.push(c - prev);
            prev = c;
        }
        if prev == 0 {
            return Ok(0);
        }
        let padded = prev % p != 0 && ch.pick(2) == 1;
        round_trip(ch, Layout::multi(p, &lens, 1), padded)
    });
    // positions beyond 2 and 4 GiB (sparse files, only the pieces around those positions are stored)
    // names that are alike but not the same: every file keeps bytes of its own
    let long: &'static [String] = vec![format!("{}1", "n".repeat(200)), format!("{}2", "n".repeat(200))].leak();
    let alike: Vec<&str> = vec![
        "a", "A", "a ", " a", "a.", ".a", "a.part", "aa", "~a", "a*", "a?", "a%41", "a\\b", "a:b", "#a", "\u{e9}", "e\u{301}", "\u{c9}", "\u{3b1}", "0", "00", "d", "name", &long[0], &long[1],
    ];
    let dirs: [&[&str]; 4] = [&[], &["q"], &["Q"], &["q", "q"]];
    let triple = !ctx.quick();
    ctx.explore("names that are alike", opts().fresh(false), move |ch| {
        let mut files: Vec<(Vec<String>, usize)> = vec![];
        for i in 0..if triple { 3 } else { 2 } {
            let mut p: Vec<String> = dirs[ch.pick(if i < 2 { dirs.len() } else { 2 })].iter().map(|x| x.to_string()).collect();
            p.push(alike[ch.pick(if i < 2 { alike.len() } else { 4 })].into());
            if files.iter().any(|f| f.0 == p) {
                return Ok(0);
            }
            files.push((p, [5, 6, 3][i]));
        }
        let total = files.iter().map(|f| f.1).sum();
        round_trip(ch, Layout { piece: 4, files: Some(files), total }, false)
    });
    ctx.explore("deep and many folders", opts().fresh(false), move |ch| {
        let (depth, width) = [(2, 1), (63, 1), (64, 2), (65, 1), (130, 2), (300, 1), (1000, 1), (1, 20), (1, 255), (1, 257), (1, 300), (2, 600), (5, 70), (1, 2500)][ch.pick(14)];
        let files: Vec<(Vec<String>, usize)> = (0..width).map(|w| {
            let mut p: Vec<String> = (0..depth).map(|d| if d == 0 { format!("d{w}") } else { "e".into() }).collect();
            p.push("f".into());
            (p, 1 + w % 3)
        }).collect();
        let total: usize = files.iter().map(|f| f.1).sum();
        let piece = if width == 1 { 1 } else { total.div_ceil(2) };
        round_trip(ch, Layout { piece, files: Some(files), total }, false)
    });
    ctx.explore("torrents larger than 4 GiB", opts().fresh(false), move |ch| {
        const M: usize = 1 << 20;
        let l = match ch.pick(4) {
            0 => Layout::single(M, 4098 * M + 5),
            1 => Layout::multi(M, &[2047 * M, 3, 2051 * M], 0),
            2 => Layout::multi(M, &[4097 * M + 1, 2 * M], 1),
            _ => Layout::multi(M, &[M, 4096 * M - 7, M], 1),
        };
        let last = l.pieces() - 1;
        let places = [2046, 2047, 2048, 4094, 4095, 4096, 4097, last];
        let first = places[ch.pick(places.len())];
        let second = places[ch.pick(places.len())];
        ch.note(|| format!("piece length {M}, total {}, files {:?}: pieces {first} and {second}", l.total, l.files));
        let base = sys::scratch();
        let out = rt::run(rt::RtOpts::default(), {
            let base = base.clone();
            async move {
                let mut fs = open(&l, &base).await?;
                let at = |o: usize| byte(0, o);
                for i in [first, second] {
                    let (a, b) = l.piece_range(i);
                    let v: Vec<u8> = (a..b).map(at).collect();
                    let data = v.chunks(BS).map(|c| c.to_vec()).collect();
                    if let Err(e) = fs.write_piece(FinishedPiece { idx: i, data }).await {
                        return mc::fail("storing a piece fails", format!("piece {i}: {e}"));
                    }
                }
                for i in [first, second] {
                    let (a, b) = l.piece_range(i);
                    for begin in [0, BS, ((b - a - 1) / BS) * BS] {
                        if begin >= b - a {
                            continue;
                        }
                        let len = BS.min(b - a - begin);
                        let mut buf = vec![0u8; len];
                        if let Err(e) = fs.read_block(i, begin, len, &mut buf).await {
                            return mc::fail("reading a stored block fails", format!("piece {i} begin {begin} length {len}: {e}"));
                        }
                        ensure!((0..len).all(|k| buf[k] == at(a + begin + k)), "stored block reads back different bytes", "piece {i} begin {begin} length {len}");
                    }
                    // and it is where it belongs
                    use std::os::unix::fs::FileExt;
                    for (p, off, flen) in l.paths() {
                        let (fa, fb) = (a.max(off), b.min(off + flen));
                        if fa >= fb {
                            continue;
                        }
                        let Ok(f) = std::fs::File::open(format!("{base}/{p}")) else { return mc::fail("file missing after a piece of it was written", p) };
                        let mut buf = vec![0u8; fb - fa];
                        let got = f.read_exact_at(&mut buf, (fa - off) as u64);
                        ensure!(got.is_ok() && (0..fb - fa).all(|k| buf[k] == at(fa + k)), "byte of a stored piece is not in its file", "piece {i}, {p} from {}: {got:?}", fa - off);
                    }
                }
                // nothing longer than declared
                for (p, _, flen) in l.paths() {
                    let n = std::fs::metadata(format!("{base}/{p}")).map(|m| m.len()).unwrap_or(0);
                    ensure!(n <= flen as u64, "file longer than its declared length", "{p} has {n} bytes, declared {flen}");
                }
                Ok::<u64, Fail>(h((first, second, l.total)))
            }
        });
        let _ = std::fs::remove_dir_all(&base);
        out
    });
    ctx.notes.insert("oracle".into(), "every file's bytes on disk and every interesting (begin, length) range after every write".into());
}

// ------------------------------------------------------------------ C10
thread_local! { static FAULTS: Cell<bool> = const { Cell::new(false) }; static INJECTED: Cell<u32> = const { Cell::new(0) }; }

fn arm(base: &str) {
    sys::track(base);
    FAULTS.with(|f| f.set(false));
    INJECTED.with(|f| f.set(0));
    sys::with(|e| {
        e.fault = Some(Box::new(|c, _p, n| {
            if !FAULTS.with(|f| f.get()) {
                return Act::Pass;
            }
            let alts: &[Act] = match c {
                Call::Write if n > 1 => &[Act::Pass, Act::Errno(libc::ENOSPC), Act::Errno(libc::EINTR), Act::Short(1), Act::Errno(libc::EIO)],
                Call::Write => &[Act::Pass, Act::Errno(libc::ENOSPC), Act::Errno(libc::EINTR), Act::Errno(libc::EIO)],
                Call::Read if n > 1 => &[Act::Pass, Act::Errno(libc::EIO), Act::Errno(libc::EINTR), Act::Short(1), Act::Short(0)],
                Call::Read => &[Act::Pass, Act::Errno(libc::EIO), Act::Errno(libc::EINTR)],
                Call::Open => &[Act::Pass, Act::Errno(libc::EMFILE), Act::Errno(libc::ENOSPC)],
                Call::Seek => &[Act::Pass, Act::Errno(libc::EIO)],
                Call::Sync => &[Act::Pass, Act::Errno(libc::EIO)],
                _ => &[Act::Pass],
            };
            let k = mc::current().deviate(alts.len());
            if k > 0 {
                INJECTED.with(|f| f.set(f.get() + 1));
                mc::current().note(|| format!("fault: {c:?} -> {:?}", alts[k]));
            }
            alts[k]
        }))
    });
}
fn faults(on: bool) {
    FAULTS.with(|f| f.set(on));
}

fn c10_layouts() -> Vec<Layout> {
    vec![
        Layout::single(8, 20),
        Layout::single(BS + 8, 2 * BS + 10),
        Layout::multi(8, &[3, 10, 5], 1),
        Layout::multi(2 * BS, &[BS - 1, 2, 2 * BS], 0),
        // several blocks of a piece in one file
        Layout::single(3 * BS, 3 * BS + 9),
        Layout::multi(4 * BS, &[3 * BS + 7, BS], 1),
    ]
}

fn faulty_history(ch: &Ch, l: Layout, sched: bool, thorough: bool) -> R {
    let base = sys::scratch();
    arm(&base);
    let n = l.pieces();
    // which piece is written first under faults, which one follows
    let order: Vec<usize> = if thorough { perm(ch, n) } else { let k = ch.pick(n); (0..n).map(|i| (i + k) % n).collect() };
    let read_faults = ch.pick(2) == 1;
    ch.note(|| format!("{l:?}, order {order:?}, faults while {}", if read_faults { "reading" } else { "writing" }));
    let ch2 = ch.clone();
    rt::run(rt::RtOpts { sched, ..Default::default() }, async move {
        let data = content(l.total);
        let mut fs = open(&l, &base).await?;
        let mut written = vec![false; n];
        let mut outcome = vec![];
        for i in order.iter().copied() {
            let mut done = false;
            for attempt in 0..6 {
                faults(!read_faults);
                let before = INJECTED.with(|f| f.get());
                let r = fs.write_piece(FinishedPiece { idx: i, data: l.blocks(&data, i, false) }).await;
                let hit = INJECTED.with(|f| f.get()) > before;
                faults(false);
                ch2.note(|| format!("write piece {i} attempt {attempt}: {}", if r.is_ok() { "ok" } else { "error" }));
                outcome.push(r.is_ok());
                if r.is_ok() {
                    written[i] = true;
                    done = true;
                } else {
                    ensure!(hit, "storing a piece fails without any fault", "{l:?}: piece {i} attempt {attempt}: {:?}", r.err());
                }
                // at this very moment, before anything queued gets to run
                check_files(&l, &base, &data, false, &written)?;
                if done {
                    break;
                }
            }
            ensure!(done, "a piece cannot be stored again after a failed attempt", "{l:?}: piece {i}");
            for j in 0..n {
                if !written[j] {
                    continue;
                }
                let (a, b) = l.piece_range(j);
                for (begin, len) in [(0, (b - a).min(BS)), ((b - a).saturating_sub(BS), (b - a).min(BS))] {
                    let mut buf = vec![0u8; len];
                    faults(read_faults);
                    let before = INJECTED.with(|f| f.get());
                    let r = fs.read_block(j, begin, len, &mut buf).await;
                    let hit = INJECTED.with(|f| f.get()) > before;
                    faults(false);
                    outcome.push(r.is_ok());
                    match r {
                        Ok(()) => ensure!(buf[..] == data[a + begin..a + begin + len], "a failed or short read was returned as data", "{l:?}: piece {j} begin {begin} length {len}"),
                        Err(e) => ensure!(hit, "reading a stored block fails without any fault", "{l:?}: piece {j} begin {begin}: {e}"),
                    }
                    if !(b - a > BS) {
                        break;
                    }
                }
            }
        }
        check_files(&l, &base, &data, true, &written)?;
        Ok::<u64, Fail>(h((format!("{l:?}"), outcome)))
    })
}

fn c10(ctx: &mut Ctx) {
    let thorough = !ctx.quick();
    ctx.explore("faults in every system call", opts().dev(ctx.by(2, 3)), move |ch| {
        let ls = c10_layouts();
        let l = ls[ch.pick(ls.len())].clone();
        faulty_history(ch, l, false, thorough)
    });
    ctx.explore("faults with reordered file jobs", opts().dev(ctx.by(1, 2)), move |ch| {
        let ls = c10_layouts();
        let l = ls[ch.pick(ls.len())].clone();
        faulty_history(ch, l, true, thorough)
    });
    // a range that reaches past the end of the data must be an error
    ctx.explore("reads past the end", opts().fresh(false), |ch| {
        let ls = vec![Layout::single(8, 20), Layout::multi(8, &[3, 10, 5], 1), Layout::multi(4, &[4, 4], 0), Layout::single(4, 8)];
        let l = ls[ch.pick(ls.len())].clone();
        let base = sys::scratch();
        let last = l.pieces() - 1;
        let (a, b) = l.piece_range(last);
        let begin = ch.pick(b - a + 1);
        let len = (b - a) - begin + 1 + ch.pick(3);
        ch.note(|| format!("{l:?}: read piece {last} begin {begin} length {len}"));
        let out = rt::run(rt::RtOpts::default(), {
            let base = base.clone();
            async move {
                let data = content(l.total);
                let mut fs = open(&l, &base).await?;
                for i in 0..l.pieces() {
                    if let Err(e) = fs.write_piece(FinishedPiece { idx: i, data: l.blocks(&data, i, false) }).await {
                        return mc::fail("storing a piece fails", format!("{l:?}: piece {i}: {e}"));
                    }
                }
                let mut buf = vec![0x55u8; len];
                let r = fs.read_block(last, begin, len, &mut buf).await;
                ensure!(r.is_err(), "a read past the end of the data succeeds", "{l:?}: piece {last} begin {begin} length {len}");
                // and a piece that does not exist is not stored
                let r = fs.write_piece(FinishedPiece { idx: l.pieces(), data: vec![vec![1; l.piece]] }).await;
                ensure!(r.is_err(), "storing a piece that does not exist reports success", "{l:?}");
                check_files(&l, &base, &data, true, &vec![true; l.pieces()])?;
                Ok::<u64, Fail>(h((begin, len)))
            }
        });
        let _ = std::fs::remove_dir_all(&base);
        out
    });
}

// ------------------------------------------------------------------ C11
fn bencode_names(name: &str, files: Option<&[Vec<String>]>) -> Vec<u8> {
    let s = |x: &str| -> Vec<u8> { let mut v = format!("{}:", x.len()).into_bytes(); v.extend(x.as_bytes()); v };
    let mut b = b"d8:announce10:http://t/a4:infod".to_vec();
    let total;
    match files {
        Some(fs) => {
            b.extend(b"5:filesl");
            for p in fs {
                b.extend(b"d6:lengthi3e4:pathl");
                for c in p {
                    b.extend(s(c));
                }
                b.extend(b"ee");
            }
            b.push(b'e');
            total = 3 * fs.len();
        }
        None => {
            b.extend(b"6:lengthi3e");
            total = 3;
        }
    }
    b.extend(b"4:name");
    b.extend(s(name));
    b.extend(b"12:piece lengthi4e6:pieces");
    let np = total.div_ceil(4);
    b.extend(format!("{}:", np * 20).bytes());
    b.extend(vec![b'h'; np * 20]);
    b.extend(b"ee");
    b
}
const EVIL: &[&str] = &["a", "..", ".", "", "/", "a/b", "../x", "a/../../../x", "b\\..\\x", "a\0b", "..\0", " ", "...", "~", "/abs", "a/..", "nést", "..\\..\\x", "..\\..\\..\\x"];
const TOKENS: &[&str] = &["..", "/", "\\", "x", ".", " ", "\0"];

/// Stores a torrent with these names; nothing outside its directory may change.
fn names_case(ch: &Ch, name: &str, files: Option<Vec<Vec<String>>>) -> R {
    let single = files.is_none();
    let files = files.unwrap_or_default();
    ch.note(|| format!("name {name:?}, files {files:?}"));
    let root = sys::scratch();
    // a file of the user next to the download directory, reachable as ../x
    let base = format!("{root}/home/dl/base");
    std::fs::create_dir_all(&base).unwrap();
    for v in ["home/x", "home/dl/x", "x", "home/dl/f0"] {
        std::fs::write(format!("{root}/{v}"), b"precious").unwrap();
    }
    sys::with(|e| e.jail = Some(base.clone()));
    let buf = bencode_names(name, (!single).then_some(&files));
    let b2 = base.clone();
    let stored = rt::run(rt::RtOpts::default(), async move {
        let Ok(t) = Torrent::from_buf(&buf) else { return 0u32 };
        let n = t.info.pieces.len();
        let task = tokio::spawn(async move {
            let mut fs = FS::new(&b2, t.info).await;
            let mut ok = 0;
            for i in 0..n {
                ok += fs.write_piece(FinishedPiece { idx: i, data: vec![b"wxyz".to_vec()] }).await.is_ok() as u32;
            }
            ok
        });
        task.await.map(|v| v + 1).unwrap_or(1)
    });
    let esc = sys::with(|e| std::mem::take(&mut e.escapes)).unwrap_or_default();
    sys::with(|e| e.jail = None);
    let mut spoilt = vec![];
    for v in ["home/x", "home/dl/x", "x", "home/dl/f0"] {
        if std::fs::read(format!("{root}/{v}")).ok().as_deref() != Some(b"precious") {
            spoilt.push(v);
        }
    }
    let _ = std::fs::remove_dir_all(&root);
    ensure!(esc.is_empty(), "file operation outside the download directory", "name {name:?} files {files:?}: {}", esc.join(", ").replace(&root, "<root>"));
    ensure!(spoilt.is_empty(), "file outside the download directory changed", "name {name:?} files {files:?}: {spoilt:?}");
    Ok(h((stored, single, files.len())))
}

fn c11(ctx: &mut Ctx) {
    let names = ctx.by(8, EVIL.len());
    let depth = ctx.by(2, 3);
    let nfiles = 2;
    let mut o = opts().fresh(false);
    o.panics_fail = false; // crashes are other properties' business
    ctx.explore("names and paths", o, move |ch| {
        let single = ch.pick(2) == 0;
        let name = EVIL[ch.pick(if single { EVIL.len() } else { names })];
        let mut files: Vec<Vec<String>> = vec![];
        if !single {
            let n = 1 + ch.pick(nfiles);
            for i in 0..n {
                let d = ch.pick(if i == 0 { depth + 1 } else { 2 });
                let mut p = vec![];
                for _ in 0..d {
                    p.push(EVIL[ch.pick(if i == 0 { EVIL.len() } else { 6 })].to_string());
                }
                if ch.pick(2) == 1 {
                    p.push(format!("f{i}"));
                }
                files.push(p);
            }
        }
        names_case(ch, name, (!single).then_some(files))
    });
    // every name put together from a few separators and dots
    let toks = ctx.by(3, 5);
    let mut o = opts().fresh(false);
    o.panics_fail = false;
    ctx.explore("composed names", o, move |ch| {
        let place = ch.pick(4);
        let mut n = String::new();
        let long = ch.pick(2) == 1; // tokens repeated to get past several directories
        for _ in 0..1 + ch.pick(toks) {
            n.push_str(TOKENS[ch.pick(TOKENS.len())]);
        }
        if long {
            n = format!("{n}{n}{n}x");
        }
        match place {
            0 => names_case(ch, &n, None),
            1 => names_case(ch, &n, Some(vec![vec!["f0".into()]])),
            2 => names_case(ch, "a", Some(vec![vec![n]])),
            _ => names_case(ch, "a", Some(vec![vec![n, "f0".into()]])),
        }
    });
    ctx.notes.insert("containment".into(), "file-changing system calls outside the download directory are refused by the libc seam and recorded as violations".into());
}

// ------------------------------------------------------------------ C12
fn c12(ctx: &mut Ctx) {
    const LIMIT: usize = 16;
    let depth = ctx.by(3, 4);
    let subset: &'static [usize] = ctx.by(&[0, 1, 15, 16, 17][..], &[0, 1, 2, 15, 16, 17, 18][..]);
    // every file is one piece; more files than the cache holds
    ctx.explore("access sequences over more files than the limit", opts(), move |ch| {
        let nfiles = 19usize;
        let l = Layout::multi(4, &vec![4; nfiles], 0);
        let base = sys::scratch();
        sys::track(&base);
        let warm = ch.pick(3); // order of the first accesses
        let tick = ch.pick(2) == 1;
        let ch = ch.clone();
        rt::run(rt::RtOpts::default(), async move {
            let mut data = content(l.total);
            let mut fs = open(&l, &base).await?;
            let mut order: Vec<usize> = (0..nfiles).collect();
            match warm {
                1 => order.reverse(),
                2 => order.rotate_left(7),
                _ => {}
            }
            for i in order {
                if let Err(e) = fs.write_piece(FinishedPiece { idx: i, data: l.blocks(&data, i, false) }).await {
                    return mc::fail("storing a piece fails", format!("file {i}: {e}"));
                }
                if tick {
                    rt::pass(Duration::from_millis(1)).await;
                }
            }
            let mut trace = vec![];
            for step in 0..depth {
                let k = subset[ch.pick(subset.len())];
                if ch.pick(2) == 0 {
                    ch.note(|| format!("read file {k}"));
                    let mut buf = [0u8; 4];
                    if let Err(e) = fs.read_block(k, 0, 4, &mut buf).await {
                        return mc::fail("reading a stored block fails", format!("file {k}: {e}"));
                    }
                    ensure!(buf[..] == data[k * 4..k * 4 + 4], "access reached the wrong file or old contents", "file {k}: {buf:?} instead of {:?}", &data[k * 4..k * 4 + 4]);
                    trace.push((k, 0));
                } else {
                    ch.note(|| format!("write file {k}"));
                    for o in k * 4..k * 4 + 4 {
                        data[o] = byte(step as u8 + 1, o);
                    }
                    if let Err(e) = fs.write_piece(FinishedPiece { idx: k, data: l.blocks(&data, k, false) }).await {
                        return mc::fail("storing a piece fails", format!("file {k}: {e}"));
                    }
                    trace.push((k, 1));
                }
                if tick {
                    rt::pass(Duration::from_millis(1)).await;
                }
                let open = sys::open_files().len();
                ensure!(open <= LIMIT, "more files held open than the limit", "{open} open");
            }
            let mx = sys::with(|e| e.max_open).unwrap_or(0);
            ensure!(mx <= LIMIT, "more files open at once than the limit", "{mx} open at some moment");
            check_files(&l, &base, &data, true, &vec![true; nfiles])?;
            for k in 0..nfiles {
                check_reads(&mut fs, &l, k, &data).await?;
            }
            Ok::<u64, Fail>(h(trace))
        })
    });
    // the cache itself: handles to read and to write in any mixture
    let depth = ctx.by(3, 4);
    let subset: &'static [usize] = ctx.by(&[0, 7, 15, 16][..], &[0, 1, 7, 15, 16, 17][..]);
    ctx.explore("handles to read and to write", opts(), move |ch| {
        use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncWriteExt};
        let base = sys::scratch();
        sys::track(&base);
        let nfiles = 18usize;
        let warm = [15usize, 16, 17][ch.pick(3)];
        let first = ch.pick(5); // the first access to each file: write, read, alternately, some both, the other way round
        let tick = [0u64, 1, 40_000][ch.pick(3)];
        let ch = ch.clone();
        rt::run(rt::RtOpts::default(), async move {
            let mut cache = FileCache::new();
            let mut want = vec![vec![]; nfiles];
            let mut trace = vec![];
            for step in 0..warm + depth {
                let (k, reads) = if step < warm {
                    (step, [false, true, step % 2 == 0, step % 3 == 0, step % 2 == 1][first])
                } else {
                    (subset[ch.pick(subset.len())], ch.pick(2) == 1)
                };
                if step >= warm {
                    ch.note(|| format!("file {k}: {}", if reads { "read" } else { "write" }));
                    trace.push((k, reads));
                }
                let path = format!("{base}/{k}");
                for again in 0..1 + (step < warm && first == 3 && step % 5 == 0) as u8 {
                    let f = if reads != (again == 1) { cache.get_read(&path).await } else { cache.get_write(&path).await };
                    let f = match f {
                        Ok(f) => f,
                        Err(e) => return fail("a file cannot be opened", format!("file {k}: {e}")),
                    };
                    let io = async {
                        f.rewind().await?;
                        let mut got = vec![];
                        f.read_to_end(&mut got).await?;
                        if !reads {
                            f.rewind().await?;
                            f.write_all(&[step as u8 + 1, k as u8]).await?;
                            f.flush().await?;
                        }
                        std::io::Result::Ok(got)
                    };
                    match io.await {
                        Ok(got) => ensure_eq!(got, want[k], "access reached the wrong file or old contents", "file {k}"),
                        Err(e) => return fail("a handle cannot be used", format!("file {k}: {e}")),
                    }
                    if !reads {
                        want[k] = vec![step as u8 + 1, k as u8];
                    }
                }
                if tick > 0 {
                    rt::pass(Duration::from_millis(tick)).await;
                }
                let open = sys::open_files().len();
                ensure!(open <= LIMIT, "more files held open than the limit", "{open} open");
            }
            let mx = sys::with(|e| e.max_open).unwrap_or(0);
            ensure!(mx <= LIMIT, "more files open at once than the limit", "{mx} open at some moment");
            Ok::<u64, Fail>(h(trace))
        })
    });
    // one access that touches more files than the limit
    ctx.explore("pieces spanning many files", opts(), move |ch| {
        let per = 15 + ch.pick(4);
        let flen = 1 + ch.pick(2);
        let nfiles = per * 2 + ch.pick(2);
        let l = Layout::multi(per * flen, &vec![flen; nfiles], ch.pick(2));
        let base = sys::scratch();
        sys::track(&base);
        let order = perm(ch, l.pieces());
        ch.note(|| format!("{per} files of {flen} per piece, {nfiles} files, order {order:?}"));
        rt::run(rt::RtOpts::default(), async move {
            let data = content(l.total);
            let mut fs = open(&l, &base).await?;
            let mut written = vec![false; l.pieces()];
            for i in order {
                if let Err(e) = fs.write_piece(FinishedPiece { idx: i, data: l.blocks(&data, i, false) }).await {
                    return mc::fail("storing a piece fails", format!("piece {i}: {e}"));
                }
                written[i] = true;
                check_files(&l, &base, &data, false, &written)?;
                for (j, w) in written.iter().enumerate() {
                    if *w {
                        check_reads(&mut fs, &l, j, &data).await?;
                    }
                }
            }
            check_files(&l, &base, &data, true, &written)?;
            let mx = sys::with(|e| e.max_open).unwrap_or(0);
            ensure!(mx <= LIMIT, "more files open at once than the limit", "{mx} open at some moment");
            Ok::<u64, Fail>(h((per, flen, nfiles)))
        })
    });
}

// ------------------------------------------------------------------ C31
thread_local! { static DEAD: Cell<bool> = const { Cell::new(false) }; }

/// Every tracked system call may be the last one of the process (a write possibly cut short), and
/// creating a directory or opening a file may fail.
fn arm_kills(base: &str) {
    sys::track(base);
    FAULTS.with(|f| f.set(false));
    DEAD.with(|f| f.set(false));
    sys::with(|e| {
        e.fault = Some(Box::new(|c, p, n| {
            if DEAD.with(|d| d.get()) {
                return Act::Errno(libc::EIO); // nothing happens any more
            }
            if !FAULTS.with(|f| f.get()) {
                return Act::Pass;
            }
            // (what happens, does the process end with it)
            let alts: &[(Act, bool)] = match c {
                Call::Write if n > 2 => &[(Act::Pass, false), (Act::Errno(libc::EIO), true), (Act::Short(1), true), (Act::Short(n - 1), true), (Act::Pass, true), (Act::Errno(libc::ENOSPC), false)],
                Call::Write | Call::Rename | Call::Unlink | Call::Truncate => &[(Act::Pass, false), (Act::Errno(libc::EIO), true), (Act::Pass, true)],
                Call::Mkdir => &[(Act::Pass, false), (Act::Errno(libc::EIO), true), (Act::Errno(libc::ENOSPC), false), (Act::Errno(libc::EACCES), false)],
                Call::Open => &[(Act::Pass, false), (Act::Errno(libc::EIO), true), (Act::Errno(libc::EMFILE), false)],
                _ => &[(Act::Pass, false)],
            };
            let k = mc::current().deviate(alts.len());
            if k > 0 {
                let name = p.rsplit('/').next().unwrap_or("").to_string();
                mc::current().note(|| format!("{c:?} {name}: {:?}{}", alts[k].0, if alts[k].1 { ", process killed" } else { "" }));
                INJECTED.with(|f| f.set(f.get() + 1));
                DEAD.with(|d| d.set(alts[k].1));
            }
            alts[k].0
        }))
    });
}

fn restarts(ch: &Ch, l: Layout, sessions: usize) -> R {
    let root = sys::scratch();
    let base = format!("{root}/dl");
    std::fs::create_dir_all(&base).unwrap();
    arm_kills(&base);
    let n = l.pieces();
    let k = ch.pick(n);
    let order: Vec<usize> = (0..n).map(|i| (i + k) % n).collect();
    let foreign = ch.pick(4); // files of the user in the download directory: none, there all along, there since the first session, in the way
    ch.note(|| format!("{l:?}, order {order:?}, {}", ["nothing else there", "a file of the user there", "a file of the user there after the first session", "a file of the user where a directory belongs"][foreign]));
    let multi = l.files.is_some();
    let keeps: Vec<String> = match (foreign, multi) {
        (0, _) => vec![],
        (_, false) => vec![format!("{base}/other")],
        (3, true) => vec![format!("{base}/name/d")],
        _ => vec![format!("{base}/name/keep"), format!("{base}/name/d/keep")],
    };
    let put = |when: &str| {
        for f in &keeps {
            let roots = sys::with(|e| std::mem::take(&mut e.roots)).unwrap_or_default();
            let _ = std::fs::create_dir_all(std::path::Path::new(f).parent().unwrap());
            let done = std::fs::write(f, b"precious");
            sys::with(|e| e.roots = roots);
            if let Err(e) = done {
                panic!("engine: {when}: {f}: {e}");
            }
        }
    };
    let check_keeps = |what: &str| -> Result<(), Fail> {
        let roots = sys::with(|e| std::mem::take(&mut e.roots)).unwrap_or_default();
        let lost: Vec<String> = keeps.iter().filter(|f| std::fs::read(f).ok().as_deref() != Some(b"precious")).map(|f| f.replace(&base, "<dl>")).collect();
        sys::with(|e| e.roots = roots);
        ensure!(lost.is_empty(), "a file of the user was lost or changed", "{what}: {lost:?}");
        Ok(())
    };
    let mut there = false;
    if foreign == 1 || foreign == 3 {
        put("before the first session");
        there = true;
    }
    let data = content(l.total);
    let mut written = vec![false; n];
    let mut log = vec![];
    for session in 0..=sessions {
        let last = session == sessions;
        DEAD.with(|d| d.set(false));
        FAULTS.with(|f| f.set(!last));
        INJECTED.with(|f| f.set(0));
        if foreign == 2 && session == 1 {
            // (the directory may not be there yet when the first session was killed early)
            put("after the first session");
            there = true;
        }
        ch.note(|| format!("start {}", session + 1));
        let (l2, b2, o2, d2, w2) = (l.clone(), base.clone(), order.clone(), data.clone(), written.clone());
        // Some((stored, problem)) or None when start-up panicked
        let r = rt::run_with(rt::RtOpts::default(), rt::Leftover::Drop, async move {
            tokio::spawn(async move {
                let t = match Torrent::from_buf(&l2.bencode()) {
                    Ok(t) => t,
                    Err(e) => return Err((w2, Fail { key: "well-formed torrent refused".into(), msg: format!("{l2:?}: {e}") })),
                };
                let mut w2 = w2;
                let mut fs = match tokio::spawn(async move { FS::new(&b2, t.info).await }).await {
                    Ok(fs) => fs,
                    Err(_) => return Ok((w2, false)),
                };
                // what earlier sessions stored can be read
                for i in 0..w2.len() {
                    let (a, b) = l2.piece_range(i);
                    if !w2[i] {
                        continue;
                    }
                    let len = (b - a).min(BS);
                    let mut buf = vec![0u8; len];
                    let before = INJECTED.with(|f| f.get());
                    let r = fs.read_block(i, b - a - len, len, &mut buf).await;
                    if INJECTED.with(|f| f.get()) > before || DEAD.with(|d| d.get()) {
                        continue;
                    }
                    let f = match r {
                        Err(e) => Fail { key: "a piece stored before the restart cannot be read".into(), msg: format!("{l2:?}: piece {i}: {e}") },
                        Ok(()) if buf[..] != d2[b - len..b] => Fail { key: "a piece stored before the restart reads back different bytes".into(), msg: format!("{l2:?}: piece {i}") },
                        Ok(()) => continue,
                    };
                    return Err((w2, f));
                }
                for i in o2 {
                    // everything is stored again, as the client does after a restart
                    for _ in 0..3 {
                        let before = INJECTED.with(|f| f.get());
                        let r = fs.write_piece(FinishedPiece { idx: i, data: l2.blocks(&d2, i, false) }).await;
                        if DEAD.with(|d| d.get()) {
                            return Ok((w2, true));
                        }
                        if r.is_ok() {
                            w2[i] = true;
                            break;
                        }
                        if INJECTED.with(|f| f.get()) == before {
                            return Err((w2, Fail { key: "storing a piece fails after a restart".into(), msg: format!("{l2:?}: piece {i}: {:?}", r.err()) }));
                        }
                    }
                }
                Ok((w2, true))
            })
            .await
        });
        FAULTS.with(|f| f.set(false));
        DEAD.with(|f| f.set(false));
        let started = match r {
            Err(e) => return mc::fail("the storage crashes", format!("{l:?}: {e}")),
            Ok(Err((_, f))) if foreign != 3 || !multi => return Err(f),
            Ok(Err((w, _))) => {
                written = w;
                false
            }
            Ok(Ok((w, s))) => {
                written = w;
                s
            }
        };
        let hit = INJECTED.with(|f| f.get()) > 0;
        log.push((started, written.clone()));
        ensure!(started || hit || (foreign == 3 && multi), "starting on an existing download directory fails", "{l:?}: session {} (nothing failed in it)", session + 1);
        if there {
            check_keeps(&format!("after session {}", session + 1))?;
            // (not files of the torrent, put back below)
            let roots = sys::with(|e| std::mem::take(&mut e.roots)).unwrap_or_default();
            for f in &keeps {
                let _ = std::fs::remove_file(f);
            }
            sys::with(|e| e.roots = roots);
        }
        let c = check_files(&l, &base, &data, last && (foreign != 3 || !multi), &written);
        if there {
            put("back");
        }
        c?;
    }
    Ok(h((format!("{l:?}"), log)))
}

fn c31(ctx: &mut Ctx) {
    let layouts: &'static [fn() -> Layout] = &[
        || Layout::single(8, 20),
        || Layout::multi(8, &[3, 10, 5], 1),
        || Layout::multi(8, &[8, 0, 4], 0),
        || Layout::multi(4, &[4, 3], 2),
        || Layout::multi(2 * BS, &[BS - 1, 2, 2 * BS], 1),
    ];
    ctx.assume("the process may be killed between any two system calls or in the middle of a write; what a system call wrote stays (no power loss)");
    let sessions = 2;
    let mut o = opts().dev(ctx.by(2, 3));
    o.panics_fail = false; // a start-up that meets an error may give up
    ctx.explore("kills and restarts", o, move |ch| {
        let l = layouts[ch.pick(layouts.len())]();
        restarts(ch, l, sessions)
    });
}

fn main() {
    mc::main(&[("C09", c09), ("C10", c10), ("C11", c11), ("C12", c12), ("C31", c31)]);
}

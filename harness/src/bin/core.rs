//! C28 shutdown, C29 bitmap, C30 ids.
use harness::mc::{self, h, opts, Ctx, Fail};
use harness::{ensure, ensure_eq, rt};
use nargun::verif::data_structures::{Bitmap, ID, ID_BIT_COUNT, ID_LEN};
use nargun::verif::shutdown;
use std::cmp::Ordering;
use std::sync::{Arc, Mutex};
use tokio::sync::{mpsc, oneshot};

// ------------------------------------------------------------------ C28
enum Cmd {
    Wait,
    Clone(oneshot::Sender<shutdown::Receiver>),
    Drop,
}
#[derive(Default, Clone, PartialEq, Eq, Hash, Debug)]
struct Holder {
    waiting: bool,
    observed: bool,
    dropped: bool,
}
fn spawn_holder(mut r: shutdown::Receiver, st: Arc<Mutex<Vec<Holder>>>, id: usize) -> mpsc::UnboundedSender<Cmd> {
    let (tx, mut rx) = mpsc::unbounded_channel();
    tokio::spawn(async move {
        loop {
            let waiting = st.lock().unwrap()[id].waiting;
            tokio::select! {
                biased;
                c = rx.recv() => match c {
                    Some(Cmd::Wait) => st.lock().unwrap()[id].waiting = true,
                    Some(Cmd::Clone(t)) => { let _ = t.send(r.clone()); }
                    Some(Cmd::Drop) | None => { st.lock().unwrap()[id].dropped = true; return; }
                },
                _ = r.recv(), if waiting => { let mut g = st.lock().unwrap(); g[id].observed = true; g[id].waiting = false; }
            }
        }
    });
    tx
}

fn c28(ctx: &mut Ctx) {
    let depth = ctx.by(7, 9);
    let max_holders = 3;
    ctx.assume("task order explored up to 2 departures from FIFO");
    ctx.explore("shutdown-histories", opts().dev(ctx.by(1, 2)), move |ch| {
        let ch = ch.clone();
        rt::run(rt::RtOpts { sched: true, select: false, ..Default::default() }, async move {
            let (tx, rx) = shutdown::channel();
            let mut tx = Some(tx);
            let st = Arc::new(Mutex::new(vec![Holder::default()]));
            let waiter_done = Arc::new(Mutex::new(false));
            let mut waiter = None;
            let mut waiting_for_end = false;
            let mut hs = vec![Some(spawn_holder(rx, st.clone(), 0))];
            // reference: wanted[i] = asked to wait, live[i]
            let mut wanted = vec![false];
            let mut live = vec![true];
            let mut settled = vec![false]; // observed the shutdown
            let mut again = vec![false]; // and waited once more
            let mut unsettled = 0;
            for step in 0..depth {
                // enabled operations
                let mut ops: Vec<(u8, usize)> = vec![(9, 0)]; // stop here
                for i in 0..live.len() {
                    if live[i] {
                        // a holder may wait again after it observed the shutdown
                        if !wanted[i] || (settled[i] && !again[i]) {
                            ops.push((0, i));
                        }
                        ops.push((2, i));
                        if live.len() < max_holders {
                            ops.push((1, i));
                        }
                    }
                }
                if tx.is_some() {
                    ops.push((3, 0));
                }
                if waiter.is_some() {
                    ops.push((4, 0));
                }
                let (op, i) = ops[ch.pick(ops.len())];
                ch.note(|| format!("{} {i}", ["wait", "clone", "drop", "signal", "await completion", "", "", "", "", "stop"][op as usize]));
                match op {
                    9 => break,
                    0 => {
                        if wanted[i] {
                            again[i] = true;
                            settled[i] = false;
                            st.lock().unwrap()[i].observed = false;
                        }
                        wanted[i] = true;
                        let _ = hs[i].as_ref().unwrap().send(Cmd::Wait);
                    }
                    1 => {
                        let (t, r) = oneshot::channel();
                        let _ = hs[i].as_ref().unwrap().send(Cmd::Clone(t));
                        // the clone exists before anything else happens
                        let c = r.await.map_err(|_| Fail { key: "clone".into(), msg: "holder vanished".into() })?;
                        st.lock().unwrap().push(Holder::default());
                        hs.push(Some(spawn_holder(c, st.clone(), hs.len())));
                        wanted.push(false);
                        live.push(true);
                        settled.push(false);
                        again.push(false);
                    }
                    2 => {
                        live[i] = false;
                        let _ = hs[i].take().unwrap().send(Cmd::Drop);
                    }
                    3 => waiter = Some(tx.take().unwrap().send()),
                    4 => {
                        let w = waiter.take().unwrap();
                        waiting_for_end = true;
                        let d = waiter_done.clone();
                        tokio::spawn(async move {
                            w.wait().await;
                            *d.lock().unwrap() = true;
                        });
                    }
                    _ => {}
                }
                // either let everything settle or go on immediately
                if unsettled < 2 && ch.pick(2) == 1 {
                    unsettled += 1;
                    continue;
                }
                unsettled = 0;
                rt::settle().await;
                let g = st.lock().unwrap().clone();
                let signalled = tx.is_none();
                for k in 0..g.len() {
                    if live[k] {
                        ensure!(!g[k].observed || signalled, "early", "holder {k} observed shutdown before the signal");
                        ensure!(!(signalled && wanted[k]) || g[k].observed, "missed", "holder {k} waits for shutdown, it was signalled, not observed");
                        settled[k] = g[k].observed;
                    } else {
                        ensure!(!g[k].observed || signalled, "early", "holder {k} observed shutdown before the signal");
                    }
                }
                let done = *waiter_done.lock().unwrap();
                let all_gone = live.iter().all(|l| !*l);
                if waiting_for_end {
                    ensure!(!done || all_gone, "early-complete", "completion reported while holders {:?} are alive", live);
                    ensure!(done || !all_gone, "stuck", "every holder was dropped and completion was not reported");
                }
                if !ch.visit(h((&g, &wanted, &live, &again, signalled, waiting_for_end, waiter.is_some(), done)), (depth - step) as u32) {
                    return Ok(0);
                }
            }
            let g = st.lock().unwrap().clone();
            Ok(h((g, live)))
        })
    });
}

// ------------------------------------------------------------------ C29
fn model_check(b: &Bitmap, m: &[bool], what: &str) -> Result<(), Fail> {
    ensure_eq!(b.len(), m.len(), "len", "{what}: len");
    for i in 0..m.len() {
        ensure_eq!(b.get(i), m[i], "get", "{what}: bit {i} of {}", m.len());
    }
    let v: Vec<bool> = b.iter().collect();
    ensure_eq!(v.as_slice(), m, "iter", "{what}: iteration");
    ensure_eq!(b.weight(), m.iter().filter(|x| **x).count(), "weight", "{what}: weight of {m:?}");
    let mut it = b.iter();
    for i in 0..m.len() {
        let rest: Vec<bool> = it.clone().collect();
        ensure_eq!(rest.as_slice(), &m[i..], "iter-clone", "{what}: cloned iterator at {i}");
        it.next();
    }
    ensure!(it.next().is_none(), "iter-end", "{what}: iterator goes on after the end");
    ensure!(it.next().is_none(), "iter-end", "{what}: iterator restarts after the end");
    Ok(())
}
fn from_wire(bytes: &[u8], n: usize) -> Option<Vec<bool>> {
    if bytes.len() != (n + 7) / 8 {
        return None;
    }
    let bits: Vec<bool> = bytes.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect();
    if bits[n..].iter().any(|x| *x) {
        return None;
    }
    Some(bits[..n].to_vec())
}
fn bitmap_case(n: usize, bytes: &[u8], all_changes: bool) -> mc::R {
    let mut b = Bitmap::new(n);
    let mut m = vec![false; n];
    // start from a non-trivial content so that a rejected replacement is visible
    for i in (0..n).step_by(3) {
        ensure_eq!(b.change(i, true), false, "change-old", "old value");
        m[i] = true;
    }
    let r = b.replace_data(bytes);
    match from_wire(bytes, n) {
        None => {
            ensure!(r.is_err(), "accepts-bad", "size {n}: wire bytes {bytes:02x?} accepted");
            model_check(&b, &m, "after rejected replacement")?;
            return Ok(h((n, 0u8)));
        }
        Some(w) => {
            ensure!(r.is_ok(), "rejects-good", "size {n}: wire bytes {bytes:02x?} rejected: {r:?}");
            m = w;
        }
    }
    model_check(&b, &m, "after replacement")?;
    if all_changes {
        for i in 0..n {
            for v in [false, true] {
                let mut c = b.clone();
                let mut k = m.clone();
                let old = c.change(i, v);
                ensure_eq!(old, k[i], "change-old", "size {n} {bytes:02x?} change({i},{v}) returned");
                k[i] = v;
                model_check(&c, &k, "after change")?;
                model_check(&b, &m, "clone is independent")?;
            }
        }
    }
    Ok(h((n, &m)))
}
fn same(b: &Bitmap, m: &[bool], what: &str) -> Result<(), Fail> {
    ensure_eq!(b.len(), m.len(), "len", "{what}: len");
    let v: Vec<bool> = b.iter().collect();
    ensure_eq!(v.len(), m.len(), "iter", "{what}: length of the iteration");
    ensure!(v == m, "iter", "{what}: iteration differs first at {:?}", v.iter().zip(m).position(|x| x.0 != x.1));
    ensure_eq!(b.weight(), m.iter().filter(|x| **x).count(), "weight", "{what}: weight");
    if let Some(i) = (0..m.len()).find(|i| b.get(*i) != m[*i]) {
        return mc::fail("get", format!("{what}: bit {i} of {}", m.len()));
    }
    Ok(())
}
fn big_bitmap(n: usize, var: u64) -> mc::R {
    let len = n.div_ceil(8);
    let mut bytes = match var {
        0 => vec![0u8; len],
        1 => vec![0xff; len],
        2 => vec![0xaa; len],
        3 => (0..len).map(|x| (x * 37 + x / 256) as u8).collect(),
        4 => (0..len).map(|x| if x + 2 > len { 0xff } else { 0 }).collect(),
        _ => (0..len).map(|x| if x + 2 > len { 0 } else { 0xff }).collect(),
    };
    if n % 8 > 0 {
        let mut bad = bytes.clone();
        *bad.last_mut().unwrap() |= 1;
        let mut b = Bitmap::new(n);
        ensure!(b.replace_data(&bad).is_err(), "accepts-bad", "size {n}: a bit beyond the end accepted");
        same(&b, &vec![false; n], "after rejected replacement")?;
        *bytes.last_mut().unwrap() &= 0xff << (8 - n % 8);
    }
    let mut m = from_wire(&bytes, n).unwrap();
    let mut b = Bitmap::new(n);
    for l in [0, 1, len - 1, len + 1, len + 8] {
        ensure!(b.replace_data(&vec![0; l]).is_err(), "accepts-bad", "size {n}: {l} bytes accepted");
    }
    ensure!(b.replace_data(&bytes).is_ok(), "rejects-good", "size {n}: wire bytes rejected");
    same(&b, &m, "after replacement")?;
    let mut at: Vec<usize> = (0..18).flat_map(|e| [(1usize << e) - 1, 1 << e, (1 << e) + 1]).chain(n - 10..n).filter(|x| *x < n).collect();
    at.sort();
    at.dedup();
    for v in [true, false, true] {
        for &i in &at {
            ensure_eq!(b.change(i, v), m[i], "change-old", "size {n} change({i},{v}) returned");
            m[i] = v;
            for k in i.saturating_sub(9)..(i + 10).min(n) {
                ensure_eq!(b.get(k), m[k], "get", "size {n} after change({i},{v}): bit {k}");
            }
        }
        same(&b, &m, "after changes")?;
    }
    Ok(h((n, var)))
}
fn c29(ctx: &mut Ctx) {
    // every size 1..=8 x every wire byte x every change; sizes 9..=16 x every two-byte pattern
    ctx.each("sizes 1..8, every byte", 8 * 256, |i| bitmap_case((i / 256) as usize + 1, &[(i % 256) as u8], true));
    let all = !ctx.quick();
    ctx.each("sizes 9..16, every byte pair", 8 * 65536, move |i| {
        let (n, p) = ((i / 65536) as usize + 9, (i % 65536) as u16);
        bitmap_case(n, &p.to_be_bytes(), all || p.count_ones() <= 2 || p.count_zeros() <= 2)
    });
    // larger sizes: structured patterns
    let mut cases: Vec<(usize, Vec<u8>)> = vec![];
    for n in 17..=(if all { 130 } else { 67 }) {
        let len = (n + 7) / 8;
        for fill in [0u8, 0xff, 0xaa, 0x55, 0x0f] {
            let mut v = vec![fill; len];
            let spare = len * 8 - n;
            cases.push((n, v.clone()));
            *v.last_mut().unwrap() &= 0xffu16.checked_shl(spare as u32).unwrap() as u8;
            cases.push((n, v.clone()));
        }
        for bit in 0..len * 8 {
            let mut v = vec![0u8; len];
            v[bit / 8] |= 0x80 >> (bit % 8);
            cases.push((n, v));
        }
        for l in [0, 1, len - 1, len + 1] {
            cases.push((n, vec![0x80; l]));
        }
    }
    let cases = Arc::new(cases);
    let c = cases.clone();
    ctx.each("larger sizes, structured patterns", cases.len() as u64, move |i| bitmap_case(c[i as usize].0, &c[i as usize].1, true));
    // every wrong length for small sizes
    ctx.each("wrong lengths", 20 * 6, |i| {
        let (n, l) = ((i / 6) as usize + 1, (i % 6) as usize);
        bitmap_case(n, &vec![0u8; l], true)
    });
    // as many pieces as large torrents have, around every power of two
    let mut ns: Vec<usize> = vec![];
    for e in 7..=(if all { 20 } else { 17 }) {
        let p = 1usize << e;
        ns.extend([p - 9, p - 8, p - 7, p - 1, p, p + 1, p + 7, p + 8, p + 9]);
    }
    let sizes = ns.len() as u64;
    ctx.each("numbers of pieces of large torrents", sizes * 6, move |i| {
        let (n, var) = (ns[(i / 6) as usize], i % 6);
        big_bitmap(n, var)
    });
    // operation sequences
    let (n, depth) = ctx.by((9, 4), (10, 5));
    ctx.explore("change sequences", opts().fresh(false), move |ch| {
        let mut b = Bitmap::new(n);
        let mut m = vec![false; n];
        for s in 0..depth {
            let (i, v) = (ch.pick(n), ch.pick(2) == 1);
            ch.note(|| format!("change({i},{v})"));
            ensure_eq!(b.change(i, v), m[i], "change-old", "old value of {i}");
            m[i] = v;
            model_check(&b, &m, "after change")?;
            if !ch.visit(h(&m), depth - s) {
                break;
            }
        }
        Ok(h(&m))
    });
}

// ------------------------------------------------------------------ C30
fn alphabet(full: bool) -> Vec<[u8; ID_LEN]> {
    let mut v: Vec<[u8; ID_LEN]> = vec![[0; ID_LEN], [0xff; ID_LEN]];
    for bit in 0..ID_BIT_COUNT {
        if full || bit % 8 == 0 || bit % 8 == 7 || bit < 10 {
            let mut a = [0u8; ID_LEN];
            a[bit / 8] |= 0x80 >> (bit % 8);
            v.push(a);
            if full || bit % 20 == 0 {
                let mut b = [0xffu8; ID_LEN];
                b[bit / 8] ^= 0x80 >> (bit % 8);
                v.push(b);
            }
        }
    }
    for (k, byte) in [(0usize, 0x7fu8), (0, 0x81), (9, 0x7f), (10, 0xc0), (19, 0x03), (19, 0xfe)] {
        let mut a = [0u8; ID_LEN];
        a[k] = byte;
        v.push(a);
        let mut b = [0x55u8; ID_LEN];
        b[k] = byte;
        v.push(b);
    }
    for i in 0..4u8 {
        let mut a = [0u8; ID_LEN];
        for (j, x) in a.iter_mut().enumerate() {
            *x = (j as u8).wrapping_mul(37).wrapping_add(i.wrapping_mul(101));
        }
        v.push(a);
    }
    v.sort();
    v.dedup();
    v
}
fn bit(a: &[u8; ID_LEN], i: usize) -> bool {
    a[i / 8] >> (7 - i % 8) & 1 == 1
}
fn xor(a: &[u8; ID_LEN], b: &[u8; ID_LEN]) -> [u8; ID_LEN] {
    let mut r = [0; ID_LEN];
    for i in 0..ID_LEN {
        r[i] = a[i] ^ b[i];
    }
    r
}
fn bytes(i: &ID) -> [u8; ID_LEN] {
    i.as_byte_ref().try_into().unwrap()
}
fn c30(ctx: &mut Ctx) {
    let al = Arc::new(alphabet(true));
    let n = al.len() as u64;
    let a2 = al.clone();
    ctx.each("pairs", n * n, move |i| {
        let (a, b) = (&a2[(i / n) as usize], &a2[(i % n) as usize]);
        let (x, y) = (ID::new(*a), ID::new(*b));
        let d = xor(a, b);
        ensure_eq!(bytes(&(&x ^ &y)), d, "xor", "xor of {a:02x?} {b:02x?}");
        ensure_eq!(bytes(&(x ^ y)), d, "xor", "xor of {a:02x?} {b:02x?}");
        ensure_eq!(bytes(&(&x - &y)), d, "distance", "distance of {a:02x?} {b:02x?}");
        ensure_eq!(bytes(&(x - y)), d, "distance", "distance of {a:02x?} {b:02x?}");
        ensure_eq!(x == y, a == b, "eq", "equality of {a:02x?} {b:02x?}");
        ensure_eq!(x.cmp(&y), a.cmp(b), "order", "order of {a:02x?} {b:02x?}");
        ensure_eq!(x.partial_cmp(&y), Some(a.cmp(b)), "order", "partial order of {a:02x?} {b:02x?}");
        let fd = (0..ID_BIT_COUNT).find(|i| bit(a, *i) != bit(b, *i));
        ensure_eq!(x.first_diff_bit_idx(&y), fd, "first-diff", "first differing bit of {a:02x?} {b:02x?}");
        let mut ns = vec![0, 1, 7, 8, 9, 15, 16, 17, 79, 80, 81, 152, 153, 159, 160];
        if let Some(f) = fd {
            ns.extend([f.saturating_sub(1), f, f + 1]);
        }
        for k in ns {
            let exp = match fd {
                Some(f) if f < k => bit(a, f).cmp(&bit(b, f)),
                _ => Ordering::Equal,
            };
            ensure_eq!(x.cmp_first_n_bits(&y, k), exp, "cmp-first-n", "first {k} bits of {a:02x?} {b:02x?}");
        }
        Ok(h((d, fd)))
    });
    let sm = Arc::new(alphabet(false));
    let m = sm.len() as u64;
    let s2 = sm.clone();
    ctx.each("triples (distance order)", m * m * m, move |i| {
        let (t, a, b) = (&s2[(i / m / m) as usize], &s2[(i / m % m) as usize], &s2[(i % m) as usize]);
        let (ti, x, y) = (ID::new(*t), ID::new(*a), ID::new(*b));
        let o = (&x - &ti).cmp(&(&y - &ti));
        ensure_eq!(o, xor(a, t).cmp(&xor(b, t)), "distance-order", "closer to {t:02x?}: {a:02x?} or {b:02x?}");
        Ok(o as u64)
    });
    let a3 = al.clone();
    ctx.each("bit operations", n * ID_BIT_COUNT as u64, move |i| {
        let (a, k) = (&a3[(i / ID_BIT_COUNT as u64) as usize], (i % ID_BIT_COUNT as u64) as usize);
        let x = ID::new(*a);
        ensure_eq!(x.get_bit(k), bit(a, k), "get-bit", "bit {k} of {a:02x?}");
        let mut f = *a;
        f[k / 8] ^= 0x80 >> (k % 8);
        let mut y = x;
        y.flip_bit(k);
        ensure_eq!(bytes(&y), f, "flip", "flip bit {k} of {a:02x?}");
        for v in [false, true] {
            let mut y = x;
            y.change_bit(k, v);
            ensure_eq!(bytes(&y), if bit(a, k) == v { *a } else { f }, "change-bit", "change bit {k} to {v} of {a:02x?}");
        }
        let (p, q) = x.bit_based_order(k, 1, 2);
        ensure_eq!((p, q), if bit(a, k) { (1, 2) } else { (2, 1) }, "bit-order", "order by bit {k} of {a:02x?}");
        // random tail: the first k+1 bits stay, every later bit can take both values
        let mut zero = x;
        rand::verif_set_source(Some(|| 0));
        zero.randomize_after_bit(k);
        let mut one = x;
        rand::verif_set_source(Some(|| u64::MAX));
        one.randomize_after_bit(k);
        rand::verif_set_source(None);
        for j in 0..ID_BIT_COUNT {
            if j <= k {
                ensure_eq!(zero.get_bit(j), bit(a, j), "randomize-prefix", "bit {j} after randomizing after {k}");
                ensure_eq!(one.get_bit(j), bit(a, j), "randomize-prefix", "bit {j} after randomizing after {k}");
            } else {
                ensure!(zero.get_bit(j) != one.get_bit(j), "randomize-tail", "bit {j} cannot vary when randomizing after {k} of {a:02x?}");
            }
        }
        let mut same = x;
        same.randomize_after_bit(ID_BIT_COUNT);
        ensure_eq!(bytes(&same), *a, "randomize-prefix", "nothing to randomize");
        Ok(h((k, bit(a, k))))
    });
    let a4 = al.clone();
    ctx.each("weights and secrets", n, move |i| {
        let a = &a4[i as usize];
        let x = ID::new(*a);
        ensure_eq!(x.weight(), a.iter().map(|b| b.count_ones() as usize).sum::<usize>(), "weight", "weight of {a:02x?}");
        for s in [&b""[..], b"a", b"\x00\x01"] {
            let mut c = a.to_vec();
            c.extend(s);
            ensure_eq!(x.hash_with_secret(s).into_vec(), openssl::sha::sha1(&c).to_vec(), "secret-hash", "keyed hash of {a:02x?}");
        }
        ensure_eq!(bytes(&ID::from(a.to_vec())), *a, "from-bytes", "id from bytes");
        Ok(h(a))
    });
}

fn main() {
    mc::main(&[("C28", c28), ("C29", c29), ("C30", c30)]);
}

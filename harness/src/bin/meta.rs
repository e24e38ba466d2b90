//! C13 metainfo fidelity, C14 rejection of malformed metainfo.
use harness::bencode::{self, bytes, dict, int, list, s, V};
use harness::mc::{self, h, opts, Ch, Ctx, Fail, R};
use harness::{ensure, ensure_eq};
use nargun::verif::transcoding::metainfo::{Mode, Torrent, TrackerAddr};
use std::collections::BTreeSet;

// ------------------------------------------------------------------ reference view
#[derive(Debug, PartialEq, Clone)]
struct View {
    trackers: BTreeSet<String>,
    name: String,
    piece_length: u64,
    pieces: Vec<Vec<u8>>,
    files: Option<Vec<(Vec<String>, u64)>>,
    total: u64,
    info_hash: Vec<u8>,
}

fn view_of(t: &Torrent) -> View {
    View {
        trackers: t
            .announce
            .iter()
            .map(|a| match a {
                TrackerAddr::Http(s) => format!("h {s}"),
                TrackerAddr::Udp(s) => format!("u {s}"),
            })
            .collect(),
        name: t.info.name.clone(),
        piece_length: t.info.piece_length,
        pieces: t.info.pieces.iter().map(|p| p.as_byte_ref().to_vec()).collect(),
        files: match &t.info.mode {
            Mode::Single { .. } => None,
            Mode::Multi { files } => Some(files.iter().map(|f| (f.path.clone(), f.length)).collect()),
        },
        total: t.info.length(),
        info_hash: t.info_hash.as_byte_ref().to_vec(),
    }
}

enum Verdict {
    Accept(View),
    Reject(String),
    /// neither demanded nor forbidden; if accepted it must look like this (if known)
    Either,
}

fn text(v: &V) -> Option<String> {
    String::from_utf8(v.as_bytes()?.to_vec()).ok()
}
fn tracker(s: &str) -> Option<String> {
    if s.starts_with("udp") {
        Some(format!("u {s}"))
    } else if s.starts_with("http") {
        Some(format!("h {s}"))
    } else {
        None
    }
}
fn bad_name(s: &str) -> bool {
    matches!(s, "" | "." | "..") || s.contains('/') || s.contains('\0')
}
fn uint(v: &V) -> Option<u64> {
    match v {
        V::Int(i) => u64::try_from(*i).ok(),
        _ => None,
    }
}

/// What a torrent file's bytes mean, by the metainfo rules alone.
fn reference(buf: &[u8]) -> Verdict {
    let p = match bencode::parse(buf) {
        Ok(p) => p,
        Err(bencode::Bad::Malformed(e)) => return Verdict::Reject(format!("invalid bencode: {e}")),
        Err(bencode::Bad::Unsure) => return Verdict::Either,
    };
    if p.trailing > 0 || p.unsorted || p.deep {
        return Verdict::Either;
    }
    let rej = |s: &str| Verdict::Reject(s.to_string());
    let Some(top) = p.value.as_dict() else { return rej("not a dictionary") };
    let mut trackers = BTreeSet::new();
    if let Some(a) = top.get(&b"announce"[..]) {
        match text(a) {
            Some(t) => trackers.extend(tracker(&t)),
            None => return rej("announce is not a string"),
        }
    }
    if let Some(a) = top.get(&b"announce-list"[..]) {
        let Some(tiers) = a.as_list() else { return rej("announce-list is not a list") };
        for t in tiers {
            let Some(us) = t.as_list() else { return rej("tier is not a list") };
            for u in us {
                match text(u) {
                    Some(t) => trackers.extend(tracker(&t)),
                    None => return rej("tracker is not a string"),
                }
            }
        }
    }
    let Some(info) = top.get(&b"info"[..]) else { return rej("no info") };
    let Some(d) = info.as_dict() else { return rej("info is not a dictionary") };
    let Some(name) = d.get(&b"name"[..]).and_then(|v| text(v)) else { return rej("name missing or not a string") };
    let Some(piece_length) = d.get(&b"piece length"[..]).and_then(|v| uint(v)) else { return rej("piece length missing, not a number or out of range") };
    let Some(pieces) = d.get(&b"pieces"[..]).and_then(|v| v.as_bytes()) else { return rej("pieces missing or not a string") };
    if pieces.is_empty() || pieces.len() % 20 != 0 {
        return rej("pieces is not a multiple of 20 bytes");
    }
    if d.contains_key(&b"length"[..]) && d.contains_key(&b"files"[..]) {
        return Verdict::Either;
    }
    let mut files = None;
    let mut total: Option<u64> = None;
    if let Some(l) = d.get(&b"length"[..]) {
        match uint(l) {
            Some(l) => total = Some(l),
            None => return rej("length is not a number or out of range"),
        }
    }
    if let Some(f) = d.get(&b"files"[..]) {
        let Some(fs) = f.as_list() else { return rej("files is not a list") };
        let mut out = vec![];
        let mut sum = 0u128;
        for f in fs {
            let Some(fd) = f.as_dict() else { return rej("file is not a dictionary") };
            let Some(len) = fd.get(&b"length"[..]).and_then(|v| uint(v)) else { return rej("file length missing, not a number or out of range") };
            let Some(path) = fd.get(&b"path"[..]).and_then(|p| p.as_list()) else { return rej("path missing or not a list") };
            let mut comps = vec![];
            for c in path {
                match text(c) {
                    Some(c) => comps.push(c),
                    None => return rej("path component is not a string"),
                }
            }
            if comps.is_empty() || comps.iter().any(|c| bad_name(c)) {
                return Verdict::Either; // how containment is ensured is C11's business
            }
            sum += len as u128;
            out.push((comps, len));
        }
        if sum > u64::MAX as u128 {
            return rej("absurd total length");
        }
        total = Some(sum as u64);
        files = Some(out);
    }
    let Some(total) = total else { return rej("neither length nor files") };
    if piece_length == 0 {
        return rej("zero piece length");
    }
    if (total as u128).div_ceil(piece_length as u128) != (pieces.len() / 20) as u128 {
        return rej("pieces do not match the total length");
    }
    if bad_name(&name) {
        return Verdict::Either;
    }
    if trackers.is_empty() {
        // a torrent this client has no use for
        return if top.contains_key(&b"announce"[..]) || top.contains_key(&b"announce-list"[..]) { Verdict::Either } else { rej("no announce") };
    }
    let (a, b) = p.info_span.expect("info span");
    Verdict::Accept(View { trackers, name, piece_length, pieces: pieces.chunks(20).map(|c| c.to_vec()).collect(), files, total, info_hash: openssl::sha::sha1(&buf[a..b]).to_vec() })
}

fn show(buf: &[u8]) -> String {
    let t: String = buf.iter().flat_map(|b| std::ascii::escape_default(*b)).map(|c| c as char).collect();
    if t.len() > 400 {
        format!("{}... ({} bytes)", &t[..400], buf.len())
    } else {
        t
    }
}
fn judge(buf: &[u8]) -> R {
    let got = Torrent::from_buf(buf);
    match (reference(buf), &got) {
        (Verdict::Accept(v), Ok(t)) => {
            let g = view_of(t);
            macro_rules! same {
                ($f:ident, $k:expr) => {
                    ensure!(g.$f == v.$f, $k, "{:?} instead of {:?} in {}", g.$f, v.$f, show(buf));
                };
            }
            same!(info_hash, "info-hash is not the SHA-1 of the info dictionary as it stands");
            same!(name, "name misread");
            same!(piece_length, "piece length misread");
            same!(pieces, "piece hashes misread");
            same!(files, "file list misread");
            same!(total, "total length misread");
            same!(trackers, "trackers misread");
            let http: BTreeSet<String> = t.http_trackers().map(|s| format!("h {s}")).collect();
            let want: BTreeSet<String> = v.trackers.iter().filter(|s| s.starts_with('h')).cloned().collect();
            ensure_eq!(http, want, "http trackers misread", "{}", show(buf));
            ensure_eq!(t.count_pieces(), v.pieces.len(), "piece count misread", "{}", show(buf));
            Ok(h(("ok", format!("{v:?}"))))
        }
        (Verdict::Accept(_), Err(e)) => mc::fail("well-formed torrent refused", format!("{e}: {}", show(buf))),
        (Verdict::Reject(why), Ok(_)) => mc::fail(format!("malformed torrent accepted: {}", why.split(':').next().unwrap()), format!("{why}: {}", show(buf))),
        (Verdict::Reject(why), Err(_)) => Ok(h(why)),
        (Verdict::Either, Ok(t)) => {
            // whatever was accepted must at least be usable
            ensure!(t.info.piece_length > 0 && !t.info.pieces.is_empty(), "malformed torrent accepted: unusable", "{}", show(buf));
            Ok(h("either ok"))
        }
        (Verdict::Either, Err(_)) => Ok(h("either err")),
    }
}
fn guarded(buf: &[u8]) -> R {
    let r = std::panic::catch_unwind(|| judge(buf));
    match r {
        Ok(r) => r,
        Err(_) => {
            let p = mc::take_panics();
            mc::fail(format!("loading a torrent crashes: {}", p.first().map(|p| p.split(" @ ").next().unwrap_or("").to_string()).unwrap_or_default()), format!("{} -- {p:?}", show(buf)))
        }
    }
}

// ------------------------------------------------------------------ C13
fn hashes(n: usize, salt: u8) -> Vec<u8> {
    (0..n * 20).map(|i| (i as u8).wrapping_mul(37).wrapping_add(salt) ^ (i / 20) as u8).collect()
}
/// Every small announce-list: which trackers a torrent names, among unsupported ones, in any tiers.
fn c13_trackers(ch: &Ch, tiers: usize, per: usize) -> R {
    const T: &[&str] = &["http://a/1", "wss://w", "udp://u:1", "https://s.udp/udp?http", "", "dht://x"];
    let mut top = vec![(
        b"info".to_vec(),
        dict(vec![(b"name".to_vec(), s("n")), (b"piece length".to_vec(), int(4)), (b"pieces".to_vec(), V::Bytes(hashes(1, 1))), (b"length".to_vec(), int(3))]),
    )];
    match ch.pick(5) {
        0 => {}
        k => top.push((b"announce".to_vec(), s(["", T[0], T[1], T[2], "http://udp/"][k]))),
    }
    let n = ch.pick(tiers + 1);
    let mut l = vec![];
    for _ in 0..n {
        let m = ch.pick(per + 1);
        l.push(list((0..m).map(|_| s(T[ch.pick(T.len())])).collect()));
    }
    if n > 0 || ch.pick(2) == 1 {
        top.push((b"announce-list".to_vec(), list(l)));
    }
    let buf = bencode::encode(&dict(top));
    ch.note(|| show(&buf));
    guarded(&buf)
}

fn c13_case(ch: &Ch, thorough: bool) -> R {
    let mut info: Vec<(Vec<u8>, V)> = vec![];
    let names = ["a", "name with spaces", "ünïcode ☃", "name", "6:pieces", "d4:infode", "x.torrent"];
    let nn = if thorough { names.len() } else { 4 };
    info.push((b"name".to_vec(), s(names[ch.pick(nn)])));
    let pl = [1u64, 2, 16384, 1 << 18, (1 << 32) + 5, i64::MAX as u64][ch.pick(6)];
    let np = 1 + ch.pick(3) as u64;
    let total = match ch.pick(3) {
        0 => pl as u128 * np as u128,
        1 => (pl as u128) * (np as u128 - 1) + 1,
        _ => (pl as u128 * np as u128).saturating_sub(pl as u128 / 3).max(1),
    };
    if total > i64::MAX as u128 {
        return Ok(0);
    }
    let total = total as u64;
    let np = total.div_ceil(pl);
    info.push((b"piece length".to_vec(), int(pl as i128)));
    info.push((b"pieces".to_vec(), V::Bytes(hashes(np as usize, ch.pick(2) as u8 * 91))));
    match ch.pick(4) {
        0 => info.push((b"length".to_vec(), int(total as i128))),
        k => {
            let lens: Vec<u64> = match k {
                1 => vec![total],
                2 => vec![total / 2, 0, total - total / 2],
                _ => vec![0, 1, total - 1, 0],
            };
            let fx = ch.pick(3);
            let fs = lens
                .iter()
                .enumerate()
                .map(|(i, l)| {
                    let mut d = vec![(b"length".to_vec(), int(*l as i128))];
                    let mut p = vec![];
                    if i % 2 == 1 {
                        p.push(s("dir"));
                        p.push(s("sub dír"));
                    }
                    p.push(s(&format!("f{i}")));
                    d.push((b"path".to_vec(), list(p)));
                    match fx {
                        1 => {
                            d.push((b"md5sum".to_vec(), s("0123456789abcdef0123456789abcdef")));
                            d.push((b"attr".to_vec(), s("x")));
                        }
                        2 => d.push((b"path.utf-8".to_vec(), list(vec![s("other")]))),
                        _ => {}
                    }
                    dict(d)
                })
                .collect();
            info.push((b"files".to_vec(), list(fs)));
        }
    }
    // keys the client does not know, anywhere in the order of keys
    let extra = [
        vec![],
        vec![("private", int(1))],
        vec![("AAA", dict(vec![(b"length".to_vec(), int(-5)), (b"pieces".to_vec(), list(vec![s("zz")]))]))],
        vec![("zz", list(vec![int(-1), s("e"), dict(vec![])]))],
        vec![("meta version", int(2)), ("source", s("src")), ("name.utf-8", s("other name"))],
        vec![("piece", bytes(&[0xff, 0, 1, b'e'])), ("length ", int(3))],
    ];
    for (k, v) in &extra[ch.pick(extra.len())] {
        info.push((k.as_bytes().to_vec(), v.clone()));
    }
    let mut top = vec![(b"info".to_vec(), dict(info))];
    let tiers = |ts: &[&[&str]]| list(ts.iter().map(|t| list(t.iter().map(|u| s(u)).collect())).collect());
    match ch.pick(if thorough { 6 } else { 5 }) {
        0 => top.push((b"announce".to_vec(), s("http://t.example/announce"))),
        1 => top.push((b"announce-list".to_vec(), tiers(&[&["http://a/x", "udp://b:1/x"], &["https://c/y?k=1"]]))),
        2 => {
            top.push((b"announce".to_vec(), s("udp://only.udp:69")));
            top.push((b"announce-list".to_vec(), tiers(&[&["udp://only.udp:69"], &[], &["http://z/"]])));
        }
        3 => {
            top.push((b"announce".to_vec(), s("wss://webtorrent")));
            top.push((b"announce-list".to_vec(), tiers(&[&["http://ok/a"], &["wss://nope"]])));
        }
        4 => {
            top.push((b"announce".to_vec(), s("https://t/a")));
            top.push((b"announce-list".to_vec(), list(vec![])));
        }
        _ => top.push((b"announce".to_vec(), s("http://[::1]:80/ann?passkey=%00%ff&x"))),
    }
    match ch.pick(3) {
        0 => {}
        1 => {
            top.push((b"comment".to_vec(), bytes(&[0xff, 0xfe])));
            top.push((b"creation date".to_vec(), int(1_600_000_000)));
            top.push((b"created by".to_vec(), s("")));
        }
        _ => {
            top.push((b"a".to_vec(), list(vec![list(vec![]), dict(vec![(b"info".to_vec(), s("decoy"))])])));
            top.push((b"url-list".to_vec(), list(vec![s("http://w/")])));
            top.push((b"infp".to_vec(), dict(vec![(b"name".to_vec(), s("decoy"))])));
        }
    }
    let buf = bencode::encode(&dict(top));
    ch.note(|| show(&buf));
    match reference(&buf) {
        Verdict::Accept(_) => {}
        Verdict::Reject(e) => panic!("generator produced a bad torrent: {e}"),
        Verdict::Either => panic!("generator produced an unclear torrent"),
    }
    guarded(&buf)
}

fn c13(ctx: &mut Ctx) {
    let th = !ctx.quick();
    ctx.explore("well-formed torrents", opts().fresh(false), move |ch| c13_case(ch, th));
    let (tiers, per) = ctx.by((2, 2), (3, 2));
    ctx.explore("tracker lists", opts().fresh(false), move |ch| c13_trackers(ch, tiers, per));
    // the same through the file system, with the real torrents that ship with the client
    let dir = "/repo/resources";
    let mut files: Vec<String> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path().to_string_lossy().into_owned()).filter(|p| p.ends_with(".torrent")).collect()).unwrap_or_default();
    files.sort();
    let n = files.len();
    ctx.explore("torrents in resources/", opts().fresh(false), move |ch| {
        if n == 0 {
            return Ok(0);
        }
        let f = &files[ch.pick(n)];
        ch.note(|| f.clone());
        let buf = std::fs::read(f).unwrap();
        let Verdict::Accept(v) = reference(&buf) else { return Ok(1) };
        match Torrent::from_file(f) {
            Ok(t) => ensure!(view_of(&t) == v, "torrent file misread", "{f}"),
            Err(e) => return mc::fail("well-formed torrent refused", format!("{f}: {e}")),
        }
        Ok(h(v.info_hash))
    });
    ctx.explore("piece count follows the lengths", opts().fresh(false), |ch| {
        let pl = 1 + ch.pick(12) as u64;
        let total = 1 + ch.pick(40) as u64;
        let np = total.div_ceil(pl) as usize;
        let buf = bencode::encode(&dict(vec![
            (b"announce".to_vec(), s("http://t/a")),
            (b"info".to_vec(), dict(vec![(b"length".to_vec(), int(total as i128)), (b"name".to_vec(), s("n")), (b"piece length".to_vec(), int(pl as i128)), (b"pieces".to_vec(), V::Bytes(hashes(np, 3)))])),
        ]));
        guarded(&buf)
    });
}

// ------------------------------------------------------------------ C14
fn seeds() -> Vec<Vec<u8>> {
    vec![
        bencode::encode(&dict(vec![
            (b"announce".to_vec(), s("http://t/a")),
            (b"announce-list".to_vec(), list(vec![list(vec![s("udp://u:1")])])),
            (b"info".to_vec(), dict(vec![(b"length".to_vec(), int(30)), (b"name".to_vec(), s("nm")), (b"piece length".to_vec(), int(20)), (b"pieces".to_vec(), V::Bytes(hashes(2, 1))), (b"private".to_vec(), int(1))])),
        ])),
        bencode::encode(&dict(vec![
            (b"announce".to_vec(), s("http://t/a")),
            (b"comment".to_vec(), s("c")),
            (
                b"info".to_vec(),
                dict(vec![
                    (b"files".to_vec(), list(vec![dict(vec![(b"length".to_vec(), int(11)), (b"path".to_vec(), list(vec![s("d"), s("f")]))]), dict(vec![(b"length".to_vec(), int(0)), (b"path".to_vec(), list(vec![s("g")]))])])),
                    (b"name".to_vec(), s("nm")),
                    (b"piece length".to_vec(), int(16)),
                    (b"pieces".to_vec(), V::Bytes(hashes(1, 9))),
                ]),
            ),
        ])),
    ]
}
fn values() -> Vec<V> {
    let mut v: Vec<V> = vec![];
    for i in [0i128, -1, 1, 2, 16, 19, 20, 21, 30, i32::MAX as i128, 1 << 32, i64::MAX as i128, i64::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 + 1, i64::MIN as i128, 1 << 100] {
        v.push(int(i));
    }
    for b in ["", "x", "http://x/", "udp:"] {
        v.push(s(b));
    }
    v.push(bytes(&[0xff, 0xfe]));
    v.push(V::Bytes(hashes(1, 0)));
    v.push(V::Bytes(hashes(2, 0)));
    v.push(V::Bytes(hashes(3, 0)));
    v.push(V::Bytes(hashes(2, 0)[..39].to_vec()));
    v.push(V::Bytes(vec![7; 41]));
    v.push(list(vec![]));
    v.push(list(vec![list(vec![])]));
    v.push(list(vec![s("a")]));
    v.push(list(vec![list(vec![s("http://q")])]));
    v.push(list(vec![int(1)]));
    v.push(dict(vec![]));
    v.push(dict(vec![(b"length".to_vec(), int(5))]));
    v.push(list(vec![dict(vec![(b"length".to_vec(), int(5)), (b"path".to_vec(), list(vec![s("p")]))])]));
    v.push(list(vec![
        dict(vec![(b"length".to_vec(), int(i64::MAX as i128)), (b"path".to_vec(), list(vec![s("p")]))]),
        dict(vec![(b"length".to_vec(), int(i64::MAX as i128)), (b"path".to_vec(), list(vec![s("q")]))]),
        dict(vec![(b"length".to_vec(), int(i64::MAX as i128)), (b"path".to_vec(), list(vec![s("r")]))]),
    ]));
    v
}
/// Every position of a value inside `v` (paths of indices).
fn spots(v: &V, here: Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(here.clone());
    let kids: Vec<&V> = match v {
        V::List(l) => l.iter().collect(),
        V::Dict(d) => d.iter().map(|(_, v)| v).collect(),
        _ => vec![],
    };
    for (i, k) in kids.into_iter().enumerate() {
        let mut p = here.clone();
        p.push(i);
        spots(k, p, out);
    }
}
/// Replaces (or removes, with None) the value at a position; false if it does not exist.
fn put(v: &mut V, at: &[usize], new: &Option<V>) -> bool {
    if at.is_empty() {
        return match new {
            Some(n) => {
                *v = n.clone();
                true
            }
            None => false,
        };
    }
    let i = at[0];
    if at.len() == 1 && new.is_none() {
        match v {
            V::List(l) if i < l.len() => {
                l.remove(i);
                return true;
            }
            V::Dict(d) if i < d.len() => {
                d.remove(i);
                return true;
            }
            _ => return false,
        }
    }
    match v {
        V::List(l) if i < l.len() => put(&mut l[i], &at[1..], new),
        V::Dict(d) if i < d.len() => put(&mut d[i].1, &at[1..], new),
        _ => false,
    }
}

fn c14(ctx: &mut Ctx) {
    let ss = seeds();
    for (k, seed) in ss.iter().enumerate() {
        assert!(matches!(reference(seed), Verdict::Accept(_)));
        let sd = seed.clone();
        ctx.each(&format!("truncations of torrent {k}"), seed.len() as u64 + 1, move |i| guarded(&sd[..i as usize]));
        let sd = seed.clone();
        ctx.each(&format!("one byte of torrent {k} changed"), seed.len() as u64 * 256, move |i| {
            let mut b = sd.clone();
            b[i as usize / 256] = i as u8;
            guarded(&b)
        });
        let sd = seed.clone();
        ctx.each(&format!("one byte of torrent {k} removed or doubled"), seed.len() as u64 * 2, move |i| {
            let mut b = sd.clone();
            let at = i as usize / 2;
            if i % 2 == 0 {
                b.remove(at);
            } else {
                b.insert(at, b[at]);
            }
            guarded(&b)
        });
        let sd = seed.clone();
        let alphabet = b"deil:0123456789-";
        ctx.each(&format!("one structural byte inserted into torrent {k}"), (seed.len() as u64 + 1) * alphabet.len() as u64, move |i| {
            let mut b = sd.clone();
            b.insert(i as usize / alphabet.len(), alphabet[i as usize % alphabet.len()]);
            guarded(&b)
        });
        let tree = bencode::parse(seed).unwrap_or_else(|_| panic!("seed")).value;
        let mut sp = vec![];
        spots(&tree, vec![], &mut sp);
        let pairs = if ctx.quick() { 1 } else { 2 };
        ctx.explore(&format!("fields of torrent {k} replaced or removed"), opts().fresh(false), move |ch| {
            let mut t = tree.clone();
            let vals = values();
            let mut last = 0;
            for _ in 0..pairs {
                let at = last + ch.pick(sp.len() - last);
                let n = ch.pick(vals.len() + 1);
                put(&mut t, &sp[at], &vals.get(n).cloned());
                last = at;
            }
            let b = bencode::encode(&t);
            ch.note(|| show(&b));
            guarded(&b)
        });
    }
    if !ctx.quick() {
        let seed = ss[0].clone();
        let a: &'static [u8] = b"deil:019-\xff";
        let n = seed.len() as u64;
        let k = a.len() as u64;
        ctx.each("two structural bytes of torrent 0 changed", n * (n - 1) / 2 * k * k, move |i| {
            let (pair, v) = (i / (k * k), i % (k * k));
            let mut x = 0;
            let mut left = pair;
            while left >= n - 1 - x {
                left -= n - 1 - x;
                x += 1;
            }
            let y = x + 1 + left;
            let mut b = seed.clone();
            b[x as usize] = a[(v / k) as usize];
            b[y as usize] = a[(v % k) as usize];
            guarded(&b)
        });
    }
    let len = ctx.by(5, 7);
    let a: &'static [u8] = b"deil:012-";
    ctx.each("all short strings over the bencode alphabet", (0..=len).map(|l| (a.len() as u64).pow(l)).sum(), move |mut i| {
        let mut l = 0;
        while i >= (a.len() as u64).pow(l) {
            i -= (a.len() as u64).pow(l);
            l += 1;
        }
        let b: Vec<u8> = (0..l).map(|_| { let c = a[(i % a.len() as u64) as usize]; i /= a.len() as u64; c }).collect();
        guarded(&b)
    });
    ctx.explore("nesting and oversized prefixes", opts(), |ch| {
        let n = [1usize, 8, 9, 10, 11, 64, 1000, 20000][ch.pick(8)];
        let open = ["l", "d1:a", "d4:info", "d4:infod5:files", "ld1:x"][ch.pick(5)];
        let close = ch.pick(2) == 1;
        let head: &[u8] = [&b""[..], b"d8:announce8:http://a4:info", b"d8:announce8:http://a4:zzzz"][ch.pick(3)];
        let mut b = head.to_vec();
        for _ in 0..n {
            b.extend(open.bytes());
        }
        match ch.pick(3) {
            0 => {}
            1 => b.extend(b"99999999999999999999:"),
            _ => b.extend(b"4294967295:x"),
        }
        if close {
            b.extend(vec![b'e'; n * 2 + 2]);
        }
        ch.note(|| show(&b));
        guarded(&b)
    });
    ctx.notes.insert("oracle".into(), "independent bencode parser and metainfo rules; bytes both would accept must be read the same, duplicate or unsorted keys and trailing bytes are left open".into());
}

fn main() {
    let _: Option<Fail> = None;
    mc::main(&[("C13", c13), ("C14", c14)]);
}

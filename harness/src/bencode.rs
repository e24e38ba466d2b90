//! A bencode reader and writer independent of the client's.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Int(i128),
    Bytes(Vec<u8>),
    List(Vec<V>),
    /// in file order
    Dict(Vec<(Vec<u8>, V)>),
}
pub fn int(i: i128) -> V {
    V::Int(i)
}
pub fn s(x: &str) -> V {
    V::Bytes(x.as_bytes().to_vec())
}
pub fn bytes(x: &[u8]) -> V {
    V::Bytes(x.to_vec())
}
pub fn list(x: Vec<V>) -> V {
    V::List(x)
}
/// A dictionary with its keys brought into order.
pub fn dict(mut x: Vec<(Vec<u8>, V)>) -> V {
    x.sort_by(|a, b| a.0.cmp(&b.0));
    V::Dict(x)
}
impl V {
    pub fn as_bytes(&self) -> Option<&[u8]> {
        match self {
            V::Bytes(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_int(&self) -> Option<i128> {
        match self {
            V::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn as_list(&self) -> Option<&[V]> {
        match self {
            V::List(l) => Some(l),
            _ => None,
        }
    }
    pub fn as_dict(&self) -> Option<BTreeMap<&[u8], &V>> {
        match self {
            V::Dict(d) => Some(d.iter().map(|(k, v)| (&k[..], v)).collect()),
            _ => None,
        }
    }
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Dict(d) => d.iter().find(|(a, _)| a == k.as_bytes()).map(|(_, v)| v),
            _ => None,
        }
    }
}
pub fn encode(v: &V) -> Vec<u8> {
    let mut o = vec![];
    enc(v, &mut o);
    o
}
fn enc(v: &V, o: &mut Vec<u8>) {
    match v {
        V::Int(i) => o.extend(format!("i{i}e").bytes()),
        V::Bytes(b) => {
            o.extend(format!("{}:", b.len()).bytes());
            o.extend(b);
        }
        V::List(l) => {
            o.push(b'l');
            for x in l {
                enc(x, o);
            }
            o.push(b'e');
        }
        V::Dict(d) => {
            o.push(b'd');
            for (k, x) in d {
                o.extend(format!("{}:", k.len()).bytes());
                o.extend(k);
                enc(x, o);
            }
            o.push(b'e');
        }
    }
}

pub struct Parsed {
    pub value: V,
    pub trailing: usize,
    /// some dictionary has unsorted or repeated keys
    pub unsorted: bool,
    /// nested deeper than any sensible reader must accept
    pub deep: bool,
    /// where the value of the top-level key "info" stands
    pub info_span: Option<(usize, usize)>,
}
pub enum Bad {
    Malformed(String),
    /// nested too deep for this reader
    Unsure,
}
struct P<'a> {
    b: &'a [u8],
    i: usize,
    unsorted: bool,
    deepest: usize,
    info: Option<(usize, usize)>,
}
const DEPTH: usize = 100;
pub fn parse(b: &[u8]) -> Result<Parsed, Bad> {
    let mut p = P { b, i: 0, unsorted: false, deepest: 0, info: None };
    let value = p.value(0)?;
    Ok(Parsed { value, trailing: b.len() - p.i, unsorted: p.unsorted, deep: p.deepest > 7, info_span: p.info })
}
fn bad<T>(s: &str) -> Result<T, Bad> {
    Err(Bad::Malformed(s.to_string()))
}
impl P<'_> {
    fn peek(&self) -> Result<u8, Bad> {
        self.b.get(self.i).copied().ok_or_else(|| Bad::Malformed("ends early".into()))
    }
    fn number(&mut self, end: u8, signed: bool) -> Result<i128, Bad> {
        let st = self.i;
        if signed && self.peek()? == b'-' {
            self.i += 1;
        }
        let ds = self.i;
        while self.peek()?.is_ascii_digit() {
            self.i += 1;
        }
        let de = self.i;
        if self.peek()? != end {
            return bad("bad number");
        }
        self.i += 1;
        if ds == de {
            return bad("empty number");
        }
        if self.b[ds] == b'0' && (de - ds > 1 || ds > st) {
            return bad("leading zero");
        }
        std::str::from_utf8(&self.b[st..de]).unwrap().parse::<i128>().or_else(|_| if signed { Ok(i128::MAX) } else { bad("string too long") })
    }
    fn string(&mut self) -> Result<Vec<u8>, Bad> {
        let n = self.number(b':', false)?;
        if n > (self.b.len() - self.i) as i128 {
            return bad("string ends early");
        }
        let r = self.b[self.i..self.i + n as usize].to_vec();
        self.i += n as usize;
        Ok(r)
    }
    fn value(&mut self, depth: usize) -> Result<V, Bad> {
        self.deepest = self.deepest.max(depth);
        if depth > DEPTH {
            return Err(Bad::Unsure);
        }
        match self.peek()? {
            b'i' => {
                self.i += 1;
                Ok(V::Int(self.number(b'e', true)?))
            }
            b'0'..=b'9' => Ok(V::Bytes(self.string()?)),
            b'l' => {
                self.i += 1;
                let mut l = vec![];
                while self.peek()? != b'e' {
                    l.push(self.value(depth + 1)?);
                }
                self.i += 1;
                Ok(V::List(l))
            }
            b'd' => {
                self.i += 1;
                let mut d: Vec<(Vec<u8>, V)> = vec![];
                while self.peek()? != b'e' {
                    if !self.peek()?.is_ascii_digit() {
                        return bad("key is not a string");
                    }
                    let k = self.string()?;
                    if d.last().map_or(false, |(p, _)| *p >= k) {
                        self.unsorted = true;
                    }
                    let st = self.i;
                    let v = self.value(depth + 1)?;
                    if depth == 0 && k == b"info" {
                        self.info = Some((st, self.i));
                    }
                    d.push((k, v));
                }
                self.i += 1;
                Ok(V::Dict(d))
            }
            _ => bad("unexpected byte"),
        }
    }
}

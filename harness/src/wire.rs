//! Independent, minimal implementation of the ClickHouse native protocol framing used by
//! the fake server: varints, strings, type skipping, CityHash128 v1.0.2, LZ4 frames.
//! It frames packets; the *meaning* of column bytes is decided by the TLA+ specification.

#[derive(Debug, Clone, PartialEq)]
pub enum PErr {
    More,
    Bad(String),
}
pub type PRes<T> = Result<T, PErr>;

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W { W(vec![]) }
    pub fn uv(mut self, mut v: u64) -> W {
        while v >= 0x80 { self.0.push((v as u8) | 0x80); v >>= 7; }
        self.0.push(v as u8);
        self
    }
    pub fn s(self, s: &str) -> W { self.b(s.as_bytes()) }
    pub fn b(self, s: &[u8]) -> W { let mut w = self.uv(s.len() as u64); w.0.extend_from_slice(s); w }
    pub fn raw(mut self, s: &[u8]) -> W { self.0.extend_from_slice(s); self }
    pub fn u8(mut self, v: u8) -> W { self.0.push(v); self }
    pub fn i32(self, v: i32) -> W { self.raw(&v.to_le_bytes()) }
    pub fn u64(self, v: u64) -> W { self.raw(&v.to_le_bytes()) }
}

pub struct R<'a> { pub b: &'a [u8], pub p: usize }
impl<'a> R<'a> {
    pub fn new(b: &'a [u8]) -> R<'a> { R { b, p: 0 } }
    pub fn take(&mut self, n: usize) -> PRes<&'a [u8]> {
        if n > self.b.len() - self.p { return Err(PErr::More); }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> PRes<u8> { Ok(self.take(1)?[0]) }
    pub fn u32(&mut self) -> PRes<u32> { Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap())) }
    pub fn u64(&mut self) -> PRes<u64> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
    pub fn uv(&mut self) -> PRes<u64> {
        let mut v = 0u64;
        for i in 0..10 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b < 0x80 { return Ok(v); }
        }
        Err(PErr::Bad("varint too long".into()))
    }
    pub fn bytes(&mut self) -> PRes<Vec<u8>> {
        let n = self.uv()?;
        if n > (1 << 30) { return Err(PErr::Bad(format!("string length {n}"))); }
        Ok(self.take(n as usize)?.to_vec())
    }
    pub fn s(&mut self) -> PRes<String> { Ok(String::from_utf8_lossy(&self.bytes()?).into_owned()) }
}

// ---------------------------------------------------------------- types (for framing only)
#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Fixed(usize),
    Str,
    Nullable(Box<Ty>),
    Array(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Low(Box<Ty>),
}

pub fn split_args(s: &str) -> Vec<String> {
    let (mut out, mut cur, mut depth, mut q, mut esc) = (vec![], String::new(), 0, false, false);
    for c in s.chars() {
        if q {
            cur.push(c);
            if esc { esc = false } else if c == '\\' { esc = true } else if c == '\'' { q = false }
            continue;
        }
        match c {
            '\'' => { q = true; cur.push(c) }
            '(' => { depth += 1; cur.push(c) }
            ')' => { depth -= 1; cur.push(c) }
            ',' if depth == 0 => { out.push(cur.trim().to_string()); cur = String::new() }
            _ => cur.push(c),
        }
    }
    out.push(cur.trim().to_string());
    out
}

pub fn parse_ty(s: &str) -> PRes<Ty> {
    let s = s.trim();
    let (name, args) = match s.find('(') {
        None => (s, None),
        Some(i) => {
            if !s.ends_with(')') { return Err(PErr::Bad(format!("type {s}"))); }
            (&s[..i], Some(split_args(&s[i + 1..s.len() - 1])))
        }
    };
    let bad = || PErr::Bad(format!("type {s}"));
    let a0 = |i: usize| -> PRes<String> { args.as_ref().and_then(|a| a.get(i).cloned()).ok_or_else(bad) };
    Ok(match name {
        "UInt8" | "Int8" | "Bool" | "Enum8" => Ty::Fixed(1),
        "UInt16" | "Int16" | "Date" | "Enum16" => Ty::Fixed(2),
        "UInt32" | "Int32" | "Float32" | "DateTime" | "IPv4" | "Decimal32" => Ty::Fixed(4),
        "UInt64" | "Int64" | "Float64" | "DateTime64" | "Decimal64" => Ty::Fixed(8),
        "UInt128" | "Int128" | "IPv6" | "UUID" => Ty::Fixed(16),
        "Decimal" => {
            let p: u32 = a0(0)?.parse().map_err(|_| bad())?;
            Ty::Fixed(if p <= 9 { 4 } else if p <= 18 { 8 } else { 16 })
        }
        "String" => Ty::Str,
        "FixedString" => Ty::Fixed(a0(0)?.parse().map_err(|_| bad())?),
        "Nullable" => Ty::Nullable(Box::new(parse_ty(&a0(0)?)?)),
        "Array" => Ty::Array(Box::new(parse_ty(&a0(0)?)?)),
        "Map" => Ty::Map(Box::new(parse_ty(&a0(0)?)?), Box::new(parse_ty(&a0(1)?)?)),
        "LowCardinality" => Ty::Low(Box::new(parse_ty(&a0(0)?)?)),
        "SimpleAggregateFunction" => parse_ty(&a0(1)?)?,
        _ => return Err(bad()),
    })
}

fn prefix(t: &Ty, r: &mut R) -> PRes<()> {
    match t {
        Ty::Low(_) => { r.u64()?; }
        Ty::Nullable(i) | Ty::Array(i) => prefix(i, r)?,
        Ty::Map(k, v) => { prefix(k, r)?; prefix(v, r)?; }
        _ => {}
    }
    Ok(())
}
/// Advances over a column of `n` values of type `t`.
pub fn skip(t: &Ty, n: usize, r: &mut R) -> PRes<()> {
    if n > 0 { prefix(t, r)?; }
    body(t, n, r)
}
fn body(t: &Ty, n: usize, r: &mut R) -> PRes<()> {
    let sane = |n: u64| if n > (1 << 28) { Err(PErr::Bad("size".into())) } else { Ok(n as usize) };
    match t {
        Ty::Fixed(k) => { r.take(k.checked_mul(n).ok_or(PErr::More)?)?; }
        Ty::Str => for _ in 0..n { r.bytes()?; },
        Ty::Nullable(i) => { r.take(n)?; body(i, n, r)?; }
        Ty::Array(i) => {
            let mut last = 0u64;
            for _ in 0..n { last = r.u64()?; }
            body(i, sane(last)?, r)?;
        }
        Ty::Map(k, v) => {
            let mut last = 0u64;
            for _ in 0..n { last = r.u64()?; }
            body(k, sane(last)?, r)?;
            body(v, sane(last)?, r)?;
        }
        Ty::Low(i) => {
            if n == 0 { return Ok(()); }
            let flags = r.u64()?;
            let d = sane(r.u64()?)?;
            body(match &**i { Ty::Nullable(i) => i, i => i }, d, r)?;
            let m = sane(r.u64()?)?;
            r.take(m << (flags & 0xff).min(3))?;
        }
    }
    Ok(())
}

#[derive(Debug, Clone)]
pub struct RawBlock {
    pub rows: u64,
    /// name, type name, raw column bytes
    pub cols: Vec<(String, String, Vec<u8>)>,
    pub info: Vec<u8>,
}

pub fn read_block(r: &mut R) -> PRes<RawBlock> {
    let p0 = r.p;
    loop {
        match r.uv()? {
            0 => break,
            1 => { r.u8()?; }
            2 => { r.u32()?; }
            k => return Err(PErr::Bad(format!("block info field {k}"))),
        }
    }
    let info = r.b[p0..r.p].to_vec();
    let nc = r.uv()?;
    let rows = r.uv()?;
    let mut cols = vec![];
    for _ in 0..nc {
        let name = r.s()?;
        let ty = r.s()?;
        let t = parse_ty(&ty)?;
        let p = r.p;
        skip(&t, rows as usize, r)?;
        cols.push((name, ty, r.b[p..r.p].to_vec()));
    }
    Ok(RawBlock { rows, cols, info })
}

pub fn block_bytes(cols: &[(String, String, Vec<u8>)], rows: u64) -> Vec<u8> {
    let mut w = W::new().uv(1).u8(0).uv(2).i32(-1).uv(0).uv(cols.len() as u64).uv(rows);
    for (n, t, d) in cols { w = w.s(n).s(t).raw(d); }
    w.0
}

// ---------------------------------------------------------------- CityHash128 (v1.0.2)
const K0: u64 = 0xc3a5c85c97cb3127;
const K1: u64 = 0xb492b66fbe98f273;
const K2: u64 = 0x9ae16a3b2f90404f;
const K3: u64 = 0xc949d7c7509e6557;
fn f64_(s: &[u8], p: usize) -> u64 { u64::from_le_bytes(s[p..p + 8].try_into().unwrap()) }
fn f32_(s: &[u8], p: usize) -> u64 { u32::from_le_bytes(s[p..p + 4].try_into().unwrap()) as u64 }
fn rot(v: u64, s: u32) -> u64 { v.rotate_right(s) }
fn smix(v: u64) -> u64 { v ^ (v >> 47) }
fn h128to64(lo: u64, hi: u64) -> u64 {
    const M: u64 = 0x9ddfea08eb382d69;
    let mut a = (lo ^ hi).wrapping_mul(M);
    a ^= a >> 47;
    let mut b = (hi ^ a).wrapping_mul(M);
    b ^= b >> 47;
    b.wrapping_mul(M)
}
fn h16(u: u64, v: u64) -> u64 { h128to64(u, v) }
fn h0to16(s: &[u8]) -> u64 {
    let n = s.len();
    if n > 8 {
        let a = f64_(s, 0);
        let b = f64_(s, n - 8);
        return h16(a, rot(b.wrapping_add(n as u64), n as u32)) ^ b;
    }
    if n >= 4 {
        let a = f32_(s, 0);
        return h16((n as u64).wrapping_add(a << 3), f32_(s, n - 4));
    }
    if n > 0 {
        let y = (s[0] as u32).wrapping_add((s[n >> 1] as u32) << 8);
        let z = (n as u32).wrapping_add((s[n - 1] as u32) << 2);
        return smix((y as u64).wrapping_mul(K2) ^ (z as u64).wrapping_mul(K3)).wrapping_mul(K2);
    }
    K2
}
fn weak(s: &[u8], p: usize, a: u64, b: u64) -> (u64, u64) {
    let (w, x, y, z) = (f64_(s, p), f64_(s, p + 8), f64_(s, p + 16), f64_(s, p + 24));
    let mut a = a.wrapping_add(w);
    let mut b = rot(b.wrapping_add(a).wrapping_add(z), 21);
    let c = a;
    a = a.wrapping_add(x).wrapping_add(y);
    b = b.wrapping_add(rot(a, 44));
    (a.wrapping_add(z), b.wrapping_add(c))
}
fn murmur(s: &[u8], lo: u64, hi: u64) -> (u64, u64) {
    let (mut a, mut b, mut c, mut d);
    a = lo;
    b = hi;
    let n = s.len();
    if n <= 16 {
        a = smix(a.wrapping_mul(K1)).wrapping_mul(K1);
        c = b.wrapping_mul(K1).wrapping_add(h0to16(s));
        d = smix(a.wrapping_add(if n >= 8 { f64_(s, 0) } else { c }));
    } else {
        c = h16(f64_(s, n - 8).wrapping_add(K1), a);
        d = h16(b.wrapping_add(n as u64), c.wrapping_add(f64_(s, n - 16)));
        a = a.wrapping_add(d);
        let mut p = 0;
        let mut len = n;
        loop {
            a ^= smix(f64_(s, p).wrapping_mul(K1)).wrapping_mul(K1);
            a = a.wrapping_mul(K1);
            b ^= a;
            c ^= smix(f64_(s, p + 8).wrapping_mul(K1)).wrapping_mul(K1);
            c = c.wrapping_mul(K1);
            d ^= c;
            p += 16;
            len -= 16;
            if len <= 16 { break; }
        }
    }
    a = h16(a, c);
    b = h16(d, b);
    (a ^ b, h16(b, a))
}
fn h128seed(s: &[u8], lo: u64, hi: u64) -> (u64, u64) {
    if s.len() < 128 { return murmur(s, lo, hi); }
    let mut len = s.len();
    let mut p = 0;
    let (mut x, mut y, mut z) = (lo, hi, (len as u64).wrapping_mul(K1));
    let mut v = (0u64, 0u64);
    let mut w = (0u64, 0u64);
    v.0 = rot(y ^ K1, 49).wrapping_mul(K1).wrapping_add(f64_(s, 0));
    v.1 = rot(v.0, 42).wrapping_mul(K1).wrapping_add(f64_(s, 8));
    w.0 = rot(y.wrapping_add(z), 35).wrapping_mul(K1).wrapping_add(x);
    w.1 = rot(x.wrapping_add(f64_(s, 88)), 53).wrapping_mul(K1);
    loop {
        for _ in 0..2 {
            x = rot(x.wrapping_add(y).wrapping_add(v.0).wrapping_add(f64_(s, p + 16)), 37).wrapping_mul(K1);
            y = rot(y.wrapping_add(v.1).wrapping_add(f64_(s, p + 48)), 42).wrapping_mul(K1);
            x ^= w.1;
            y ^= v.0;
            z = rot(z ^ w.0, 33);
            v = weak(s, p, v.1.wrapping_mul(K1), x.wrapping_add(w.0));
            w = weak(s, p + 32, z.wrapping_add(w.1), y);
            std::mem::swap(&mut z, &mut x);
            p += 64;
        }
        len -= 128;
        if len < 128 { break; }
    }
    y = y.wrapping_add(rot(w.0, 37).wrapping_mul(K0)).wrapping_add(z);
    x = x.wrapping_add(rot(v.0.wrapping_add(z), 49).wrapping_mul(K0));
    let mut done = 0;
    while done < len {
        done += 32;
        y = rot(y.wrapping_sub(x), 42).wrapping_mul(K0).wrapping_add(v.1);
        let q = p + len - done;
        w.0 = w.0.wrapping_add(f64_(s, q + 16));
        x = rot(x, 49).wrapping_mul(K0).wrapping_add(w.0);
        w.0 = w.0.wrapping_add(v.0);
        v = weak(s, q, v.0, v.1);
    }
    x = h16(x, v.0);
    y = h16(y, w.0);
    (h16(x.wrapping_add(v.1), w.1).wrapping_add(y), h16(x.wrapping_add(w.1), y.wrapping_add(v.1)))
}
pub fn city128(s: &[u8]) -> (u64, u64) {
    let n = s.len();
    if n >= 16 {
        h128seed(&s[16..], f64_(s, 0) ^ K3, f64_(s, 8))
    } else if n >= 8 {
        h128seed(&[], f64_(s, 0) ^ (n as u64).wrapping_mul(K0), f64_(s, n - 8) ^ K1)
    } else {
        h128seed(s, K0, K1)
    }
}

// ---------------------------------------------------------------- frames
pub fn frame_with(payload: &[u8], orig: u32) -> Vec<u8> {
    let mut body = vec![0x82u8];
    body.extend_from_slice(&((payload.len() + 9) as u32).to_le_bytes());
    body.extend_from_slice(&orig.to_le_bytes());
    body.extend_from_slice(payload);
    seal(body)
}
pub fn seal(body: Vec<u8>) -> Vec<u8> {
    let (lo, hi) = city128(&body);
    let mut out = lo.to_le_bytes().to_vec();
    out.extend_from_slice(&hi.to_le_bytes());
    out.extend_from_slice(&body);
    out
}
/// One frame holding `data`, LZ4-compressed.
pub fn frame(data: &[u8]) -> Vec<u8> {
    let c = lz4::block::compress(data, None, false).unwrap();
    frame_with(&c, data.len() as u32)
}
/// Literal-only LZ4 payload.
pub fn lz4_literals(data: &[u8]) -> Vec<u8> {
    let n = data.len();
    let mut o = vec![];
    if n < 15 { o.push((n as u8) << 4) } else {
        o.push(0xf0);
        let mut m = n - 15;
        while m >= 255 { o.push(255); m -= 255; }
        o.push(m as u8);
    }
    o.extend_from_slice(data);
    o
}
/// Reads one frame, verifying checksum and size.
pub fn read_frame(r: &mut R) -> PRes<Vec<u8>> {
    let lo = r.u64()?;
    let hi = r.u64()?;
    let p = r.p;
    let m = r.u8()?;
    if m != 0x82 { return Err(PErr::Bad(format!("method {m:#x}"))); }
    let cs = r.u32()? as usize;
    let us = r.u32()? as usize;
    if cs < 9 || cs > (1 << 30) { return Err(PErr::Bad(format!("compressed size {cs}"))); }
    let pay = r.take(cs - 9)?.to_vec();
    if city128(&r.b[p..r.p]) != (lo, hi) { return Err(PErr::Bad("checksum".into())); }
    let d = lz4::block::decompress(&pay, Some(us as i32)).map_err(|e| PErr::Bad(format!("lz4 {e}")))?;
    if d.len() != us { return Err(PErr::Bad("size".into())); }
    Ok(d)
}

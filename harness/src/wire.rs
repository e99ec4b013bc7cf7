//! Protocol primitives of the oracle, written from the format descriptions (varints, strings,
//! LZ4 block format, CityHash128 1.0.2, compressed frames). Shares no code with the client.

use crate::gen::Src;

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> Self {
        W(vec![])
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.0.push(v);
        self
    }
    pub fn uv(&mut self, mut v: u64) -> &mut Self {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.0.push(b);
                return self;
            }
            self.0.push(b | 0x80);
        }
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend_from_slice(b);
        self
    }
    pub fn str(&mut self, s: &[u8]) -> &mut Self {
        self.uv(s.len() as u64);
        self.bytes(s)
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.bytes(&v.to_le_bytes())
    }
    pub fn i32(&mut self, v: i32) -> &mut Self {
        self.bytes(&v.to_le_bytes())
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.bytes(&v.to_le_bytes())
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum RErr {
    Short,
    Bad(String),
}
pub type RRes<T> = Result<T, RErr>;
pub fn bad<T>(s: impl Into<String>) -> RRes<T> {
    Err(RErr::Bad(s.into()))
}

pub struct R<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> R<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        R { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> RRes<&'a [u8]> {
        if self.b.len() - self.p < n {
            return Err(RErr::Short);
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    pub fn u8(&mut self) -> RRes<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn uv(&mut self) -> RRes<u64> {
        let mut v: u64 = 0;
        let mut s = 0;
        loop {
            let b = self.u8()?;
            if s >= 64 || (s == 63 && b > 1) {
                return bad("varint too long");
            }
            v |= ((b & 0x7f) as u64) << s;
            if b & 0x80 == 0 {
                if b == 0 && s > 0 {
                    return bad("non-canonical varint");
                }
                return Ok(v);
            }
            s += 7;
        }
    }
    pub fn str(&mut self) -> RRes<Vec<u8>> {
        let n = self.uv()? as usize;
        if n > 1 << 30 {
            return bad("string too long");
        }
        Ok(self.take(n)?.to_vec())
    }
    pub fn string(&mut self) -> RRes<String> {
        match String::from_utf8(self.str()?) {
            Ok(s) => Ok(s),
            Err(_) => bad("string is not utf-8"),
        }
    }
    pub fn u32(&mut self) -> RRes<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn i32(&mut self) -> RRes<i32> {
        Ok(self.u32()? as i32)
    }
    pub fn u64(&mut self) -> RRes<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
}

// ---------------------------------------------------------------- CityHash128 (v1.0.2)
const K0: u64 = 0xc3a5c85c97cb3127;
const K1: u64 = 0xb492b66fbe98f273;
const K2: u64 = 0x9ae16a3b2f90404f;
const K3: u64 = 0xc949d7c7509e6557;

struct Buf<'a>(&'a [u8]);
impl<'a> Buf<'a> {
    fn f64(&self, i: usize) -> u64 {
        u64::from_le_bytes(self.0[i..i + 8].try_into().unwrap())
    }
    fn f32(&self, i: usize) -> u64 {
        u32::from_le_bytes(self.0[i..i + 4].try_into().unwrap()) as u64
    }
}
fn shift_mix(v: u64) -> u64 {
    v ^ (v >> 47)
}
fn hash_len16(u: u64, v: u64) -> u64 {
    const MUL: u64 = 0x9ddfea08eb382d69;
    let mut a = (u ^ v).wrapping_mul(MUL);
    a ^= a >> 47;
    let mut b = (v ^ a).wrapping_mul(MUL);
    b ^= b >> 47;
    b.wrapping_mul(MUL)
}
fn hash_0to16(b: &Buf, s: usize, len: usize) -> u64 {
    if len > 8 {
        let a = b.f64(s);
        let c = b.f64(s + len - 8);
        return hash_len16(a, c.wrapping_add(len as u64).rotate_right(len as u32)) ^ c;
    }
    if len >= 4 {
        let a = b.f32(s);
        return hash_len16((len as u64).wrapping_add(a << 3), b.f32(s + len - 4));
    }
    if len > 0 {
        let x = b.0[s] as u32;
        let y = b.0[s + (len >> 1)] as u32;
        let z = b.0[s + len - 1] as u32;
        let yy = x.wrapping_add(y << 8) as u64;
        let zz = (len as u32).wrapping_add(z << 2) as u64;
        return shift_mix(yy.wrapping_mul(K2) ^ zz.wrapping_mul(K3)).wrapping_mul(K2);
    }
    K2
}
fn weak(b: &Buf, s: usize, a: u64, bb: u64) -> (u64, u64) {
    let (w, x, y, z) = (b.f64(s), b.f64(s + 8), b.f64(s + 16), b.f64(s + 24));
    let mut a = a.wrapping_add(w);
    let mut bq = bb.wrapping_add(a).wrapping_add(z).rotate_right(21);
    let c = a;
    a = a.wrapping_add(x).wrapping_add(y);
    bq = bq.wrapping_add(a.rotate_right(44));
    (a.wrapping_add(z), bq.wrapping_add(c))
}
fn murmur(buf: &Buf, mut s: usize, mut len: usize, seed: (u64, u64)) -> (u64, u64) {
    let (mut a, mut b) = seed;
    let mut c;
    let mut d;
    if len <= 16 {
        a = shift_mix(a.wrapping_mul(K1)).wrapping_mul(K1);
        c = b.wrapping_mul(K1).wrapping_add(hash_0to16(buf, s, len));
        d = shift_mix(a.wrapping_add(if len >= 8 { buf.f64(s) } else { c }));
    } else {
        c = hash_len16(buf.f64(s + len - 8).wrapping_add(K1), a);
        d = hash_len16(b.wrapping_add(len as u64), c.wrapping_add(buf.f64(s + len - 16)));
        a = a.wrapping_add(d);
        loop {
            a ^= shift_mix(buf.f64(s).wrapping_mul(K1)).wrapping_mul(K1);
            a = a.wrapping_mul(K1);
            b ^= a;
            c ^= shift_mix(buf.f64(s + 8).wrapping_mul(K1)).wrapping_mul(K1);
            c = c.wrapping_mul(K1);
            d ^= c;
            s += 16;
            len -= 16;
            if len <= 16 {
                break;
            }
        }
    }
    a = hash_len16(a, c);
    b = hash_len16(d, b);
    (a ^ b, hash_len16(b, a))
}
fn city_seed(buf: &Buf, s0: usize, len0: usize, seed: (u64, u64)) -> (u64, u64) {
    if len0 < 128 {
        return murmur(buf, s0, len0, seed);
    }
    let mut s = s0;
    let mut len = len0;
    let (mut x, mut y) = seed;
    let mut z = (len as u64).wrapping_mul(K1);
    let mut v = (0u64, 0u64);
    let mut w = (0u64, 0u64);
    v.0 = (y ^ K1).rotate_right(49).wrapping_mul(K1).wrapping_add(buf.f64(s));
    v.1 = v.0.rotate_right(42).wrapping_mul(K1).wrapping_add(buf.f64(s + 8));
    w.0 = y.wrapping_add(z).rotate_right(35).wrapping_mul(K1).wrapping_add(x);
    w.1 = x.wrapping_add(buf.f64(s + 88)).rotate_right(53).wrapping_mul(K1);
    loop {
        for _ in 0..2 {
            x = x
                .wrapping_add(y)
                .wrapping_add(v.0)
                .wrapping_add(buf.f64(s + 16))
                .rotate_right(37)
                .wrapping_mul(K1);
            y = y.wrapping_add(v.1).wrapping_add(buf.f64(s + 48)).rotate_right(42).wrapping_mul(K1);
            x ^= w.1;
            y ^= v.0;
            z = (z ^ w.0).rotate_right(33);
            v = weak(buf, s, v.1.wrapping_mul(K1), x.wrapping_add(w.0));
            w = weak(buf, s + 32, z.wrapping_add(w.1), y);
            std::mem::swap(&mut z, &mut x);
            s += 64;
        }
        len -= 128;
        if len < 128 {
            break;
        }
    }
    y = y.wrapping_add(w.0.rotate_right(37).wrapping_mul(K0).wrapping_add(z));
    x = x.wrapping_add(v.0.wrapping_add(z).rotate_right(49).wrapping_mul(K0));
    let mut tail = 0;
    while tail < len {
        tail += 32;
        y = y.wrapping_sub(x).rotate_right(42).wrapping_mul(K0).wrapping_add(v.1);
        w.0 = w.0.wrapping_add(buf.f64(s + len - tail + 16));
        x = x.rotate_right(49).wrapping_mul(K0).wrapping_add(w.0);
        w.0 = w.0.wrapping_add(v.0);
        v = weak(buf, s + len - tail, v.0, v.1);
    }
    x = hash_len16(x, v.0);
    y = hash_len16(y, w.0);
    (
        hash_len16(x.wrapping_add(v.1), w.1).wrapping_add(y),
        hash_len16(x.wrapping_add(w.1), y.wrapping_add(v.1)),
    )
}
pub fn city128(data: &[u8]) -> (u64, u64) {
    let b = Buf(data);
    let len = data.len();
    if len >= 16 {
        city_seed(&b, 16, len - 16, (b.f64(0) ^ K3, b.f64(8)))
    } else if len >= 8 {
        city_seed(&b, 0, 0, (b.f64(0) ^ (len as u64).wrapping_mul(K0), b.f64(len - 8) ^ K1))
    } else {
        city_seed(&b, 0, len, (K0, K1))
    }
}

// ---------------------------------------------------------------- LZ4 block format
pub fn lz4_decode(src: &[u8], out_len: usize) -> Result<Vec<u8>, String> {
    let mut out = Vec::with_capacity(out_len);
    let mut i = 0;
    loop {
        let t = *src.get(i).ok_or("lz4: no token")? as usize;
        i += 1;
        let mut ll = t >> 4;
        if ll == 15 {
            loop {
                let b = *src.get(i).ok_or("lz4: literal length")? as usize;
                i += 1;
                ll += b;
                if b != 255 {
                    break;
                }
            }
        }
        if i + ll > src.len() {
            return Err("lz4: literals past end".into());
        }
        out.extend_from_slice(&src[i..i + ll]);
        i += ll;
        if i == src.len() {
            break;
        }
        if i + 2 > src.len() {
            return Err("lz4: offset".into());
        }
        let off = src[i] as usize | (src[i + 1] as usize) << 8;
        i += 2;
        if off == 0 || off > out.len() {
            return Err("lz4: bad offset".into());
        }
        let mut ml = (t & 15) + 4;
        if t & 15 == 15 {
            loop {
                let b = *src.get(i).ok_or("lz4: match length")? as usize;
                i += 1;
                ml += b;
                if b != 255 {
                    break;
                }
            }
        }
        for _ in 0..ml {
            out.push(out[out.len() - off]);
        }
        if out.len() > out_len {
            return Err("lz4: too long".into());
        }
    }
    if out.len() != out_len {
        return Err(format!("lz4: {} bytes instead of {}", out.len(), out_len));
    }
    Ok(out)
}

/// A conforming but arbitrary LZ4 encoding: which matches are taken is drawn from `g`.
pub fn lz4_encode(src: &[u8], g: Option<&mut Src>) -> Vec<u8> {
    let mut out = vec![];
    fn len_ext(out: &mut Vec<u8>, mut n: usize) {
        while n >= 255 {
            out.push(255);
            n -= 255;
        }
        out.push(n as u8);
    }
    fn seq(out: &mut Vec<u8>, lit: &[u8], m: Option<(usize, usize)>) {
        let l = lit.len().min(15);
        let k = m.map(|(_, ml)| (ml - 4).min(15)).unwrap_or(0);
        out.push((l << 4 | k) as u8);
        if l == 15 {
            len_ext(out, lit.len() - 15);
        }
        out.extend_from_slice(lit);
        if let Some((off, ml)) = m {
            out.push(off as u8);
            out.push((off >> 8) as u8);
            if k == 15 {
                len_ext(out, ml - 4 - 15);
            }
        }
    }
    let style = match g {
        Some(g) => g.below(4),
        None => 1,
    };
    let n = src.len();
    let mut lit = 0;
    let mut i = 0;
    if style != 0 && n > 13 {
        // greedy with a last-occurrence table; the last match starts >= 12 bytes before the end and
        // the last 5 bytes are literals
        let mut table: std::collections::HashMap<[u8; 4], usize> = Default::default();
        while i + 12 < n {
            let key: [u8; 4] = src[i..i + 4].try_into().unwrap();
            let cand = table.insert(key, i);
            if let Some(c) = cand {
                let off = i - c;
                if off <= 65535 && !(style == 2 && off < 8) {
                    let mut ml = 4;
                    let maxml = if style == 3 { 6 } else { usize::MAX };
                    while i + ml < n - 5 && src[c + ml] == src[i + ml] && ml < maxml {
                        ml += 1;
                    }
                    seq(&mut out, &src[lit..i], Some((off, ml)));
                    i += ml;
                    lit = i;
                    continue;
                }
            }
            i += 1;
        }
    }
    seq(&mut out, &src[lit..], None);
    out
}

pub fn frame(payload: &[u8], g: Option<&mut Src>) -> Vec<u8> {
    let comp = lz4_encode(payload, g);
    frame_raw(&comp, payload.len() as u32)
}
pub fn frame_raw(comp: &[u8], original: u32) -> Vec<u8> {
    let mut body = W::new();
    body.u8(0x82).u32(comp.len() as u32 + 9).u32(original).bytes(comp);
    let (lo, hi) = city128(&body.0);
    let mut w = W::new();
    w.u64(lo).u64(hi).bytes(&body.0);
    w.0
}

/// Read one compressed frame sent by the client.
pub fn read_frame(r: &mut R) -> RRes<Vec<u8>> {
    let lo = r.u64()?;
    let hi = r.u64()?;
    let p = r.p;
    let m = r.u8()?;
    if m != 0x82 {
        return bad(format!("compression method 0x{m:02x}"));
    }
    let cs = r.u32()? as usize;
    let us = r.u32()? as usize;
    if cs < 9 || us > 1 << 30 {
        return bad("frame sizes");
    }
    let body = r.take(cs - 9)?;
    if city128(&r.b[p..r.p]) != (lo, hi) {
        return bad("frame checksum mismatch");
    }
    lz4_decode(body, us).map_err(RErr::Bad)
}

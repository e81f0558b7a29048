//! Independent decoder of the documented binary grammar. Strict: every byte must belong to exactly
//! one element.
use crate::dec::Dec;
use crate::model::{key_lt, Val};

pub struct Stats {
    pub objects: usize,
    pub arrays: usize,
    pub long_varint: usize,
}

struct D<'a> {
    b: &'a [u8],
    num: &'a dyn Fn(&[u8]) -> Result<Dec, String>,
    st: Stats,
}

type R<T> = Result<T, String>;

impl<'a> D<'a> {
    fn take(&self, at: usize, n: usize) -> R<&'a [u8]> {
        self.b.get(at..at + n).ok_or_else(|| format!("bytes {}..{} outside the document of {} bytes", at, at + n, self.b.len()))
    }
    fn u8(&self, at: usize) -> R<u8> {
        Ok(self.take(at, 1)?[0])
    }
    fn u16(&self, at: usize) -> R<usize> {
        let t = self.take(at, 2)?;
        Ok(t[0] as usize | (t[1] as usize) << 8)
    }
    fn u32(&self, at: usize) -> R<usize> {
        let t = self.take(at, 4)?;
        Ok(t[0] as usize | (t[1] as usize) << 8 | (t[2] as usize) << 16 | (t[3] as usize) << 24)
    }
    fn varint(&mut self, at: usize) -> R<(usize, usize)> {
        let mut v = 0usize;
        for i in 0..4 {
            let x = self.u8(at + i)?;
            v |= ((x & 0x7f) as usize) << (7 * i);
            if x & 0x80 == 0 {
                if i > 0 && x == 0 {
                    return Err(format!("data length at {} is not in its shortest form", at));
                }
                if i > 0 {
                    self.st.long_varint += 1;
                }
                return Ok((v, i + 1));
            }
        }
        Err(format!("data length at {} runs over four bytes", at))
    }
    /// a value without its type byte; returns the value and the end position
    fn body(&mut self, ty: u8, at: usize) -> R<(Val, usize)> {
        match ty {
            1 => self.object(at),
            2 => self.array(at),
            3 => {
                let (n, l) = self.varint(at)?;
                let t = self.take(at + l, n)?;
                let s = std::str::from_utf8(t).map_err(|e| format!("string at {}: {}", at, e))?;
                Ok((Val::Str(s.to_string()), at + l + n))
            }
            4 => {
                let n = self.u8(at)? as usize;
                let t = self.take(at + 1, n)?;
                Ok((Val::Num((self.num)(t).map_err(|e| format!("number at {}: {}", at, e))?), at + 1 + n))
            }
            5 => match self.u8(at)? {
                0 => Ok((Val::Bool(false), at + 1)),
                1 => Ok((Val::Bool(true), at + 1)),
                x => Err(format!("bool byte {} at {}", x, at)),
            },
            6 => Ok((Val::Null, at)),
            t => Err(format!("type code {} before {}", t, at)),
        }
    }
    fn tiles(mut spans: Vec<(usize, usize)>, from: usize, to: usize, what: &str) -> R<()> {
        spans.sort();
        let mut at = from;
        for (a, b) in spans {
            if a != at {
                return Err(format!("{}: gap or overlap, expected the next item at {} but it is at {}", what, at, a));
            }
            at = b;
        }
        if at != to {
            return Err(format!("{}: items end at {} but the size field says {}", what, at, to));
        }
        Ok(())
    }
    fn object(&mut self, at: usize) -> R<(Val, usize)> {
        self.st.objects += 1;
        let size = self.u32(at)?;
        let base = at + 4;
        let end = base + size;
        self.take(base, size)?;
        let n = self.u16(base)?;
        let mut spans = Vec::with_capacity(n);
        let mut m: Vec<(String, Val)> = Vec::with_capacity(n);
        for i in 0..n {
            let off = self.u32(base + 2 + 4 * i)?;
            let kp = base + off;
            let kl = self.u16(kp)?;
            let kb = self.take(kp + 2, kl)?;
            let key = std::str::from_utf8(kb).map_err(|e| format!("key at {}: {}", kp, e))?.to_string();
            if let Some((prev, _)) = m.last() {
                if !key_lt(prev, &key) {
                    return Err(format!("key offsets out of order at {}: {:?} then {:?}", base + 2 + 4 * i, prev, key));
                }
            }
            let ty = self.u8(kp + 2 + kl)?;
            let (v, e) = self.body(ty, kp + 3 + kl)?;
            spans.push((kp, e));
            m.push((key, v));
        }
        Self::tiles(spans, base + 2 + 4 * n, end, "object")?;
        Ok((Val::Obj(m), end))
    }
    fn array(&mut self, at: usize) -> R<(Val, usize)> {
        self.st.arrays += 1;
        let size = self.u32(at)?;
        let base = at + 4;
        let end = base + size;
        self.take(base, size)?;
        let n = self.u16(base)?;
        let mut spans = Vec::with_capacity(n);
        let mut a = Vec::with_capacity(n);
        for i in 0..n {
            let ep = base + 2 + 5 * i;
            let ty = self.u8(ep)?;
            let off = self.u32(ep + 1)?;
            match ty {
                6 if off == 0 => a.push(Val::Null),
                6 => return Err(format!("inlined null {} at {}", off, ep + 1)),
                5 => a.push(match off {
                    0 => Val::Bool(false),
                    1 => Val::Bool(true),
                    x => return Err(format!("inlined bool {} at {}", x, ep + 1)),
                }),
                1 | 2 => {
                    let p = base + off;
                    if self.u8(p)? != ty {
                        return Err(format!("entry type {} but outlined type {} at {}", ty, self.u8(p)?, p));
                    }
                    let (v, e) = self.body(ty, p + 1)?;
                    spans.push((p, e));
                    a.push(v);
                }
                _ => {
                    let (v, e) = self.body(ty, base + off)?;
                    spans.push((base + off, e));
                    a.push(v);
                }
            }
        }
        Self::tiles(spans, base + 2 + 5 * n, end, "array")?;
        Ok((Val::Arr(a), end))
    }
}

/// Decodes a whole document.
pub fn decode(b: &[u8], num: &dyn Fn(&[u8]) -> Result<Dec, String>) -> Result<(Val, Stats), String> {
    let mut d = D { b, num, st: Stats { objects: 0, arrays: 0, long_varint: 0 } };
    let ty = d.u8(0)?;
    let (v, e) = d.body(ty, 1)?;
    if e != b.len() {
        return Err(format!("{} bytes after the end of the document", b.len() as i64 - e as i64));
    }
    Ok((v, d.st))
}

//! Byte builders: `W` writes wire formats, `D` writes canonical dumps.
#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> Self {
        W(vec![])
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.0.push(v);
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut Self {
        self.b(&v.to_le_bytes())
    }
    pub fn u24(&mut self, v: u32) -> &mut Self {
        self.b(&v.to_le_bytes()[..3])
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.b(&v.to_le_bytes())
    }
    pub fn u48(&mut self, v: u64) -> &mut Self {
        self.b(&v.to_le_bytes()[..6])
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.b(&v.to_le_bytes())
    }
    pub fn b(&mut self, v: &[u8]) -> &mut Self {
        self.0.extend_from_slice(v);
        self
    }
    /// length-encoded integer, shortest form
    pub fn lenenc(&mut self, v: u64) -> &mut Self {
        if v < 251 {
            self.u8(v as u8)
        } else if v < 1 << 16 {
            self.u8(0xfc).u16(v as u16)
        } else if v < 1 << 24 {
            self.u8(0xfd).u24(v as u32)
        } else {
            self.u8(0xfe).u64(v)
        }
    }
    pub fn lenstr(&mut self, v: &[u8]) -> &mut Self {
        self.lenenc(v.len() as u64).b(v)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

/// Canonical dump: fixed-width little-endian scalars, length-prefixed sequences, tagged options.
#[derive(Default, Clone)]
pub struct D(pub Vec<u8>);
impl D {
    pub fn new() -> Self {
        D(vec![])
    }
    pub fn tag(&mut self, t: u8) -> &mut Self {
        self.0.push(t);
        self
    }
    pub fn n(&mut self, v: u64) -> &mut Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i(&mut self, v: i64) -> &mut Self {
        self.n(v as u64)
    }
    pub fn flag(&mut self, v: bool) -> &mut Self {
        self.0.push(v as u8);
        self
    }
    pub fn s(&mut self, v: &[u8]) -> &mut Self {
        self.n(v.len() as u64);
        self.0.extend_from_slice(v);
        self
    }
    pub fn opt<T>(&mut self, v: Option<&T>, f: impl FnOnce(&mut D, &T)) -> &mut Self {
        match v {
            None => {
                self.0.push(0);
            }
            Some(x) => {
                self.0.push(1);
                f(self, x);
            }
        }
        self
    }
    pub fn seq<T>(&mut self, v: &[T], mut f: impl FnMut(&mut D, &T)) -> &mut Self {
        self.n(v.len() as u64);
        for x in v {
            f(self, x);
        }
        self
    }
    pub fn bits(&mut self, v: &[bool]) -> &mut Self {
        self.seq(v, |d, x| {
            d.flag(*x);
        })
    }
}

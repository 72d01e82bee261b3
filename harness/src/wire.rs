//! Request payload builder and response payload reader (independent of nexo's own codec).

#[derive(Clone, Default, Debug)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W { W(Vec::new()) }
    pub fn u8(mut self, v: u8) -> W { self.0.push(v); self }
    pub fn u32(mut self, v: u32) -> W { self.0.extend(v.to_be_bytes()); self }
    pub fn u64(mut self, v: u64) -> W { self.0.extend(v.to_be_bytes()); self }
    pub fn s(mut self, v: &str) -> W { self.0.extend((v.len() as u32).to_be_bytes()); self.0.extend(v.as_bytes()); self }
    pub fn raw(mut self, v: &[u8]) -> W { self.0.extend(v); self }
}

pub struct Rd<'a> { b: &'a [u8], i: usize }
pub type RR<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> { Rd { b, i: 0 } }
    pub fn take(&mut self, n: usize) -> RR<&'a [u8]> {
        if self.b.len() - self.i < n { return Err(format!("malformed reply: {} bytes wanted at {}, {} in all", n, self.i, self.b.len())); }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> RR<u8> { Ok(self.take(1)?[0]) }
    pub fn u32(&mut self) -> RR<u32> { Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap())) }
    pub fn u64(&mut self) -> RR<u64> { Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap())) }
    pub fn bytes(&mut self) -> RR<Vec<u8>> { let n = self.u32()? as usize; Ok(self.take(n)?.to_vec()) }
    pub fn string(&mut self) -> RR<String> { String::from_utf8(self.bytes()?).map_err(|_| "malformed reply: text is not UTF-8".into()) }
    pub fn uuid(&mut self) -> RR<u128> { Ok(u128::from_be_bytes(self.take(16)?.try_into().unwrap())) }
    pub fn end(&self) -> RR<()> {
        if self.i != self.b.len() { return Err(format!("malformed reply: {} bytes left over", self.b.len() - self.i)); }
        Ok(())
    }
}

pub mod op {
    pub const ECHO: u8 = 0x00;
    pub const SET: u8 = 0x02; pub const GET: u8 = 0x03; pub const DEL: u8 = 0x04;
    pub const Q_CREATE: u8 = 0x10; pub const Q_PUSH: u8 = 0x11; pub const Q_CONSUME: u8 = 0x12; pub const Q_ACK: u8 = 0x13;
    pub const Q_EXISTS: u8 = 0x14; pub const Q_DELETE: u8 = 0x15; pub const Q_PEEK: u8 = 0x16; pub const Q_MOVE: u8 = 0x17;
    pub const Q_DELDLQ: u8 = 0x18; pub const Q_PURGE: u8 = 0x19; pub const Q_NACK: u8 = 0x1A;
    pub const PUB: u8 = 0x21; pub const SUB: u8 = 0x22; pub const UNSUB: u8 = 0x23;
    pub const S_CREATE: u8 = 0x30; pub const S_PUB: u8 = 0x31; pub const S_FETCH: u8 = 0x32; pub const S_JOIN: u8 = 0x33;
    pub const S_ACK: u8 = 0x34; pub const S_EXISTS: u8 = 0x35; pub const S_DELETE: u8 = 0x36; pub const S_SEEK: u8 = 0x38;
    pub const S_LEAVE: u8 = 0x39;
}

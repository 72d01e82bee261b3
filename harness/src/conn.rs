//! Real loopback connections to the server's session code, driven from the case thread without blocking it.
use crate::eng::{Reply, Srv};
use crate::sim::sleep_ms;
use std::collections::VecDeque;
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

pub struct Listener { port: u16, h: tokio::task::JoinHandle<()>, pub open: Arc<AtomicUsize> }
impl Listener {
    /// Accepts connections as the server's main loop does.
    pub async fn start(s: &Srv) -> Result<Listener, String> {
        let l = tokio::net::TcpListener::bind(("127.0.0.1", 0)).await.map_err(|e| format!("harness: bind: {e}"))?;
        let port = l.local_addr().map_err(|e| e.to_string())?.port();
        let e = s.eng.clone();
        let open = Arc::new(AtomicUsize::new(0));
        let o = open.clone();
        let h = tokio::spawn(async move {
            while let Ok((sock, _)) = l.accept().await {
                let (e, o) = (e.clone(), o.clone());
                o.fetch_add(1, SeqCst);
                tokio::spawn(async move { nexo::transport::tcp::connection::handle_connection(sock, e).await.ok(); o.fetch_sub(1, SeqCst); });
            }
        });
        Ok(Listener { port, h, open })
    }
    /// `buf`: size of the socket buffers.
    pub async fn connect(&self, buf: Option<usize>) -> Result<Peer, String> {
        let n = self.open.load(SeqCst);
        let s = open_socket(self.port, buf).map_err(|e| format!("harness: connect: {e}"))?;
        s.set_nonblocking(true).map_err(|e| e.to_string())?;
        s.set_nodelay(true).ok();
        let mut k = 0;
        while self.open.load(SeqCst) == n && k < 2000 { pause(&mut k).await; }
        settle_io().await;
        Ok(Peer { s, buf: vec![], frames: VecDeque::new(), eof: None, out: VecDeque::new(), patient: false })
    }
}
impl Drop for Listener { fn drop(&mut self) { self.h.abort(); } }

/// Buffers are set before the handshake, and segments kept small, so that a full window opens again without waiting for timers.
fn open_socket(port: u16, buf: Option<usize>) -> std::io::Result<TcpStream> {
    use std::os::fd::{AsRawFd, FromRawFd};
    let Some(n) = buf else { return TcpStream::connect(("127.0.0.1", port)) };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 { return Err(std::io::Error::last_os_error()); }
        let s = TcpStream::from_raw_fd(fd);
        let n = n as libc::c_int;
        for o in [libc::SO_RCVBUF, libc::SO_SNDBUF] { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, o, &n as *const _ as *const _, 4); }
        let mss: libc::c_int = 1400;
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_MAXSEG, &mss as *const _ as *const _, 4);
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as u16;
        a.sin_port = port.to_be();
        a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        if libc::connect(fd, &a as *const _ as *const _, std::mem::size_of_val(&a) as u32) != 0 { return Err(std::io::Error::last_os_error()); }
        Ok(s)
    }
}

/// Let the server's tasks and the loopback device get on; virtual time stands still.
pub async fn settle_io() { for _ in 0..6 { tokio::task::spawn_blocking(|| ()).await.ok(); for _ in 0..20 { tokio::task::yield_now().await; } } }
async fn pause(k: &mut u32) {
    *k += 1;
    settle_io().await;
    // the machine may be slow: give it real time as well, without letting virtual time pass
    if *k % 8 == 0 { tokio::task::spawn_blocking(|| crate::interpose::real_nap_us(200)).await.ok(); }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Frame { Resp(u32, Reply), Push(String, Vec<u8>), Bad(String) }
pub struct Peer { s: TcpStream, buf: Vec<u8>, pub frames: VecDeque<Frame>, pub eof: Option<String>, out: VecDeque<u8>, pub patient: bool }
pub fn request(id: u32, opcode: u8, p: &[u8]) -> Vec<u8> { frame(1, opcode, id, p) }
pub fn frame(ty: u8, meta: u8, id: u32, p: &[u8]) -> Vec<u8> {
    let mut v = vec![ty, meta];
    v.extend(id.to_be_bytes());
    v.extend((p.len() as u32).to_be_bytes());
    v.extend(p);
    v
}
impl Peer {
    /// Hand bytes to the network; what does not fit yet goes out with later calls.
    pub fn write(&mut self, b: &[u8]) { self.out.extend(b); self.flush(); }
    pub fn flush(&mut self) {
        while !self.out.is_empty() {
            let (a, _) = self.out.as_slices();
            match self.s.write(a) {
                Ok(0) => break,
                Ok(n) => { self.out.drain(..n); }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(e) => { if self.eof.is_none() { self.eof = Some(format!("write: {e}")); } self.out.clear(); }
            }
        }
    }
    pub fn unsent(&self) -> usize { self.out.len() }
    /// Take in at most `max` bytes of what has arrived.
    pub fn read(&mut self, max: usize) {
        let mut left = max;
        let mut b = [0u8; 8192];
        while left > 0 && self.eof.as_deref().is_none_or(|e| e.starts_with("write")) {
            let k = left.min(b.len());
            match self.s.read(&mut b[..k]) {
                Ok(0) => { self.eof = Some("closed".into()); }
                Ok(n) => { self.buf.extend(&b[..n]); left -= n; }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(e) => self.eof = Some(format!("read: {e}")),
            }
        }
        let mut at = 0;
        while self.buf.len() - at >= 10 {
            let h = &self.buf[at..at + 10];
            let n = u32::from_be_bytes(h[6..10].try_into().unwrap()) as usize;
            if self.buf.len() - at < 10 + n { break; }
            let p = self.buf[at + 10..at + 10 + n].to_vec();
            let id = u32::from_be_bytes(h[2..6].try_into().unwrap());
            self.frames.push_back(parse(h[0], h[1], id, p));
            at += 10 + n;
        }
        self.buf.drain(..at);
    }
    /// Bytes of a frame that is not complete.
    pub fn partial(&self) -> usize { self.buf.len() }
    /// Exchange bytes until `done` or nothing has happened for `max_ms` of virtual time.
    pub async fn until(&mut self, max_ms: u64, done: impl Fn(&Peer) -> bool) -> bool {
        let (mut idle, mut waited, mut k, mut slow) = (0u32, 0u64, 0u32, 0u32);
        loop {
            self.flush();
            let before = (self.buf.len(), self.frames.len(), self.out.len());
            self.read(usize::MAX);
            if done(self) { return true; }
            if self.eof.as_deref() == Some("closed") { return false; }
            if before != (self.buf.len(), self.frames.len(), self.out.len()) { idle = 0; slow = 0; settle_io().await; continue; }
            idle += 1;
            if idle <= 40 { pause(&mut k).await; continue; }
            // bytes under way: the network has timers of its own, in real time
            if (self.patient || !self.out.is_empty() || !self.buf.is_empty()) && slow < 300 { slow += 1; tokio::task::spawn_blocking(|| crate::interpose::real_nap_us(5_000)).await.ok(); continue; }
            if waited >= max_ms { return false; }
            // nothing moves: let time pass
            let st = if waited < 50 { 5 } else if waited < 2000 { 50 } else { 500 };
            sleep_ms(st).await;
            waited += st;
            idle = 30;
        }
    }
    /// Send a request and wait for its answer; pushes stay queued.
    pub async fn call(&mut self, id: u32, opcode: u8, p: &[u8], max_ms: u64) -> Result<Reply, String> {
        self.write(&request(id, opcode, p));
        self.answer(id, max_ms).await.map_err(|e| format!("request 0x{opcode:02X}: {e}"))
    }
    pub async fn answer(&mut self, id: u32, max_ms: u64) -> Result<Reply, String> {
        self.until(max_ms, |p| p.frames.iter().any(|f| matches!(f, Frame::Resp(i, _) if *i == id))).await;
        match self.frames.iter().position(|f| matches!(f, Frame::Resp(i, _) if *i == id)) {
            Some(i) => match self.frames.remove(i) { Some(Frame::Resp(_, r)) => Ok(r), _ => unreachable!() },
            None => Err(format!("no answer within {max_ms} ms{}", self.eof.as_ref().map_or(String::new(), |e| format!(" (connection {e})")))),
        }
    }
    pub fn pushes(&mut self) -> Vec<(String, Vec<u8>)> {
        let mut v = vec![];
        let mut rest = VecDeque::new();
        for f in self.frames.drain(..) { match f { Frame::Push(t, d) => v.push((t, d)), f => rest.push_back(f) } }
        self.frames = rest;
        v
    }
    pub fn bad(&self) -> Option<String> { self.frames.iter().find_map(|f| if let Frame::Bad(e) = f { Some(e.clone()) } else { None }) }
    /// Close with a reset instead of an orderly end.
    pub fn reset(self) { linger0(&self.s); }
    pub fn shutdown_write(&self) { self.s.shutdown(Shutdown::Write).ok(); }
}
/// No TIME_WAIT entries pile up over thousands of cases.
fn linger0(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe { libc::setsockopt(std::os::fd::AsRawFd::as_raw_fd(s), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32); }
}
fn parse(ty: u8, meta: u8, id: u32, p: Vec<u8>) -> Frame {
    let text = |p: &[u8]| -> Result<String, String> {
        if p.len() < 4 || u32::from_be_bytes(p[..4].try_into().unwrap()) as usize > p.len() - 4 { return Err("length field beyond the frame".into()); }
        let n = u32::from_be_bytes(p[..4].try_into().unwrap()) as usize;
        String::from_utf8(p[4..4 + n].to_vec()).map_err(|_| "not UTF-8".into())
    };
    match (ty, meta) {
        (2, 0) if p.is_empty() => Frame::Resp(id, Reply::Ok),
        (2, 2) if p.is_empty() => Frame::Resp(id, Reply::Null),
        (2, 3) => Frame::Resp(id, Reply::Data(p)),
        (2, 1) => match text(&p) { Ok(t) if t.len() + 4 == p.len() => Frame::Resp(id, Reply::Err(t)), _ => Frame::Bad(format!("malformed error response to request {id}")) },
        (3, _) => match text(&p) { Ok(t) => { let n = 4 + t.len(); Frame::Push(t, p[n..].to_vec()) } Err(e) => Frame::Bad(format!("push frame: {e}")) },
        _ => Frame::Bad(format!("frame of type {ty}, status {meta}, {} bytes", p.len())),
    }
}
/// Wait for a condition of the server's state, in virtual time.
pub async fn wait_for(max_ms: u64, mut f: impl FnMut() -> bool) -> bool {
    let mut k = 0;
    for _ in 0..40 { if f() { return true; } pause(&mut k).await; }
    let mut w = 0;
    while w < max_ms { if f() { return true; } tokio::time::sleep(Duration::from_millis(5)).await; w += 5; }
    f()
}

//! Dashboard client: plain HTTP/1.1 over loopback. The request runs on a blocking thread, so the paused clock stands still meanwhile.
use crate::eng::Srv;
use crate::interpose as ip;
use std::io::{Read, Write};
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

pub struct Http { port: u16, h: tokio::task::JoinHandle<()> }
impl Http {
    pub async fn start(s: &Srv) -> Http {
        ip::LISTEN_PORT.store(0, SeqCst);
        let e = s.eng.clone();
        let h = tokio::spawn(async move { nexo::transport::http::router::start_http_server(e, 0).await });
        while ip::LISTEN_PORT.load(SeqCst) == 0 { tokio::task::yield_now().await; }
        Http { port: ip::LISTEN_PORT.load(SeqCst) as u16, h }
    }
    pub async fn get(&self, path: &str) -> Result<(u16, Vec<u8>), String> { self.req("GET", path).await }
    /// Status and body; Err: no complete answer.
    pub async fn req(&self, method: &str, path: &str) -> Result<(u16, Vec<u8>), String> {
        let (port, req, what) = (self.port, format!("{method} {path} HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"), path.chars().take(200).collect::<String>());
        tokio::task::spawn_blocking(move || fetch(port, &req).map_err(|e| format!("{} {what}: {e}", req.split(' ').next().unwrap()))).await.map_err(|e| format!("http client: {e}"))?
    }
    pub async fn json(&self, path: &str) -> Result<serde_json::Value, String> {
        let (st, b) = self.get(path).await?;
        if st != 200 { return Err(format!("GET {path}: status {st}: {}", String::from_utf8_lossy(&b))); }
        serde_json::from_slice(&b).map_err(|e| format!("GET {path}: not JSON ({e})"))
    }
}
impl Drop for Http { fn drop(&mut self) { self.h.abort(); } }

fn fetch(port: u16, req: &str) -> Result<(u16, Vec<u8>), String> {
    let mut s = std::net::TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("connect: {e}"))?;
    s.set_read_timeout(Some(Duration::from_secs(60))).ok();
    // Close with a reset: no TIME_WAIT entries pile up over thousands of cases.
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe { libc::setsockopt(std::os::fd::AsRawFd::as_raw_fd(&s), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32); }
    s.write_all(req.as_bytes()).map_err(|e| format!("send: {e}"))?;
    let mut b = Vec::new();
    if let Err(e) = s.read_to_end(&mut b) { return Err(format!("no complete answer ({e}) after {} bytes", b.len())); }
    if b.is_empty() { return Err("connection closed without an answer".into()); }
    let at = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or("answer without end of headers")?;
    let head = String::from_utf8_lossy(&b[..at]).to_lowercase();
    let mut body = b[at + 4..].to_vec();
    let st = head.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or("bad status line")?;
    if head.contains("transfer-encoding: chunked") && !req.starts_with("HEAD") {
        let (mut i, mut out) = (0, Vec::new());
        loop {
            let e = body[i..].windows(2).position(|w| w == b"\r\n").ok_or("bad chunk")? + i;
            let n = usize::from_str_radix(std::str::from_utf8(&body[i..e]).unwrap_or("").split(';').next().unwrap().trim(), 16).map_err(|_| "bad chunk size")?;
            if n == 0 { break; }
            out.extend(body.get(e + 2..e + 2 + n).ok_or("short chunk")?);
            i = e + 2 + n + 2;
        }
        body = out;
    } else if let Some(l) = head.lines().find_map(|l| l.strip_prefix("content-length:")) {
        if !req.starts_with("HEAD") && l.trim().parse::<usize>() != Ok(body.len()) { return Err(format!("body of {} bytes, announced {}", body.len(), l.trim())); }
    }
    Ok((st, body))
}
pub fn enc(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}

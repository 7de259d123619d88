//! A scripted HTTP server on the loopback interface. One connection at a time:
//! it records the request, sends the scripted bytes and closes.

use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Debug, Clone)]
pub struct Req {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub complete: bool,
}

impl Req {
    pub fn header(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|h| h.0 == n).map(|h| h.1.as_str())
    }
}

#[derive(Debug, Clone, Default)]
pub struct Script {
    /// Sent in these pieces, with a flush after each.
    pub pieces: Vec<Vec<u8>>,
    /// Close without reading the request.
    pub slam: bool,
    /// Reset the connection instead of closing it.
    pub reset: bool,
    /// Wait so many milliseconds before the last piece.
    pub slow: u64,
}

#[derive(Default)]
struct State {
    script: Script,
    log: Vec<Req>,
    conns: usize,
}

pub struct Server {
    pub addr: SocketAddr,
    st: Arc<Mutex<State>>,
}

const BARRIER: &[u8] = b"BARRIER\n";
const STOP: &[u8] = b"STOPSTO\n";

/// Acknowledge at once: clients that send head and body apart would wait.
fn quick(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let one: libc::c_int = 1;
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::IPPROTO_TCP,
            libc::TCP_QUICKACK,
            std::ptr::addr_of!(one).cast(),
            std::mem::size_of::<libc::c_int>() as u32,
        );
    }
}

fn read_req(s: &mut TcpStream) -> Option<Req> {
    let mut buf = vec![];
    let mut tmp = [0u8; 16384];
    let find = |b: &[u8]| b.windows(4).position(|w| w == b"\r\n\r\n");
    let mut ok = true;
    while find(&buf).is_none() {
        match s.read(&mut tmp) {
            Ok(0) | Err(_) => {
                ok = false;
                break;
            }
            Ok(n) => buf.extend_from_slice(&tmp[..n]),
        }
        quick(s);
        if buf.starts_with(BARRIER) || buf.starts_with(STOP) {
            return Some(Req { method: String::from_utf8_lossy(&buf[..7]).into(), target: String::new(), headers: vec![], body: vec![], complete: false });
        }
    }
    if buf.is_empty() {
        return None;
    }
    let hend = find(&buf).unwrap_or(buf.len());
    let head = String::from_utf8_lossy(&buf[..hend]).to_string();
    let mut lines = head.split("\r\n");
    let first = lines.next().unwrap_or("").to_string();
    let mut it = first.splitn(3, ' ');
    let method = it.next().unwrap_or("").to_string();
    let target = it.next().unwrap_or("").to_string();
    let headers: Vec<(String, String)> = lines
        .filter_map(|l| l.split_once(':').map(|(a, b)| (a.trim().to_lowercase(), b.trim().to_string())))
        .collect();
    let mut body = if hend + 4 <= buf.len() { buf[hend + 4..].to_vec() } else { vec![] };
    let get = |n: &str| headers.iter().find(|h| h.0 == n).map(|h| h.1.clone());
    if ok {
        if let Some(n) = get("content-length").and_then(|v| v.parse::<usize>().ok()) {
            while body.len() < n {
                match s.read(&mut tmp) {
                    Ok(0) | Err(_) => {
                        ok = false;
                        break;
                    }
                    Ok(k) => body.extend_from_slice(&tmp[..k]),
                }
            }
        } else if get("transfer-encoding").is_some_and(|v| v.to_lowercase().contains("chunked")) {
            loop {
                match dechunk(&body) {
                    Some(b) => {
                        body = b;
                        break;
                    }
                    None => match s.read(&mut tmp) {
                        Ok(0) | Err(_) => {
                            ok = false;
                            break;
                        }
                        Ok(k) => body.extend_from_slice(&tmp[..k]),
                    },
                }
            }
        }
    }
    Some(Req { method, target, headers, body, complete: ok })
}

fn dechunk(b: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    loop {
        let e = i + b[i..].windows(2).position(|w| w == b"\r\n")?;
        let n = usize::from_str_radix(std::str::from_utf8(&b[i..e]).ok()?.split(';').next()?.trim(), 16).ok()?;
        i = e + 2;
        if n == 0 {
            return b[i..].starts_with(b"\r\n").then_some(o);
        }
        o.extend_from_slice(b.get(i..i + n)?);
        i += n + 2;
    }
}

impl Server {
    pub fn start(k: u64) -> Server {
        let ip = [127, 0, (k / 200 % 200) as u8, (1 + k % 200) as u8];
        let l = TcpListener::bind(SocketAddr::from((ip, 0)))
            .or_else(|_| TcpListener::bind("127.0.0.1:0"))
            .unwrap_or_else(|e| panic!("harness: listen: {e}"));
        let addr = l.local_addr().unwrap_or_else(|e| panic!("harness: {e}"));
        let st = Arc::new(Mutex::new(State::default()));
        let st2 = st.clone();
        std::thread::spawn(move || loop {
            let Ok((mut c, _)) = l.accept() else { return };
            let _ = c.set_read_timeout(Some(Duration::from_secs(5)));
            let _ = c.set_write_timeout(Some(Duration::from_secs(5)));
            let _ = c.set_nodelay(true);
            quick(&c);
            let (script, slam) = match st2.lock() {
                Ok(g) => (g.script.clone(), g.script.slam),
                Err(_) => return,
            };
            // barriers are recognised even when slamming
            if slam {
                let mut p = [0u8; 1];
                if let Ok(1) = c.peek(&mut p) {
                    if p[0] == BARRIER[0] || p[0] == STOP[0] {
                        // fall through to the reader below
                    } else {
                        if let Ok(mut g) = st2.lock() {
                            g.conns += 1;
                        }
                        let _ = c.shutdown(Shutdown::Both);
                        continue;
                    }
                }
            }
            let Some(r) = read_req(&mut c) else { continue };
            if r.method == "BARRIER" {
                let _ = c.write_all(b"ok");
                continue;
            }
            if r.method == "STOPSTO" {
                return;
            }
            if let Ok(mut g) = st2.lock() {
                g.conns += 1;
                g.log.push(r);
            }
            if script.reset {
                use std::os::fd::AsRawFd;
                let lg = libc::linger { l_onoff: 1, l_linger: 0 };
                unsafe {
                    libc::setsockopt(
                        c.as_raw_fd(),
                        libc::SOL_SOCKET,
                        libc::SO_LINGER,
                        std::ptr::addr_of!(lg).cast(),
                        std::mem::size_of::<libc::linger>() as u32,
                    );
                }
            }
            for (i, p) in script.pieces.iter().enumerate() {
                if script.slow > 0 && i + 1 == script.pieces.len() {
                    std::thread::sleep(Duration::from_millis(script.slow));
                }
                if c.write_all(p).is_err() {
                    break;
                }
                let _ = c.flush();
            }
            if !script.reset {
                let _ = c.shutdown(Shutdown::Write);
                // let the client close first, but never wait for it
                let _ = c.set_read_timeout(Some(Duration::from_millis(10)));
                let mut t = [0u8; 64];
                let _ = c.read(&mut t);
            }
        });
        Server { addr, st }
    }

    pub fn set(&self, script: Script) {
        if let Ok(mut g) = self.st.lock() {
            g.script = script;
            g.log.clear();
            g.conns = 0;
        }
    }

    /// Waits until every earlier connection was served; returns what they sent.
    pub fn drain(&self) -> Vec<Req> {
        let mut c = TcpStream::connect(self.addr).unwrap_or_else(|e| panic!("harness: barrier: {e}"));
        let _ = c.set_read_timeout(Some(Duration::from_secs(30)));
        c.write_all(BARRIER).unwrap_or_else(|e| panic!("harness: barrier: {e}"));
        let mut b = [0u8; 2];
        c.read_exact(&mut b).unwrap_or_else(|e| panic!("harness: barrier: {e}"));
        match self.st.lock() {
            Ok(g) => g.log.clone(),
            Err(_) => panic!("harness: server state"),
        }
    }

    pub fn conns(&self) -> usize {
        self.st.lock().map(|g| g.conns).unwrap_or(0)
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        if let Ok(mut c) = TcpStream::connect(self.addr) {
            let _ = c.write_all(STOP);
        }
    }
}

pub fn reply(status: u16, reason: &str, extra: &str, body: &[u8], framing: u8) -> Vec<u8> {
    let mut h = format!("HTTP/1.1 {status} {reason}\r\nConnection: close\r\n{extra}");
    match framing {
        0 => {
            h.push_str(&format!("Content-Length: {}\r\n\r\n", body.len()));
            let mut o = h.into_bytes();
            o.extend_from_slice(body);
            o
        }
        1 => {
            h.push_str("Transfer-Encoding: chunked\r\n\r\n");
            let mut o = h.into_bytes();
            // uneven chunks
            let mut i = 0;
            let mut k = 1;
            while i < body.len() {
                let n = k.min(body.len() - i);
                o.extend_from_slice(format!("{n:x}\r\n").as_bytes());
                o.extend_from_slice(&body[i..i + n]);
                o.extend_from_slice(b"\r\n");
                i += n;
                k = k * 3 + 1;
            }
            o.extend_from_slice(b"0\r\n\r\n");
            o
        }
        _ => {
            h.push_str("\r\n");
            let mut o = h.into_bytes();
            o.extend_from_slice(body);
            o
        }
    }
}

//! A small raw HTTP/1.1 client: writes request bytes as told and reads whole responses.
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

pub struct Conn {
    stream: TcpStream,
    buf: Vec<u8>,
}

#[derive(Debug)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub version: String,
}

pub enum Recv {
    Resp(Resp),
    Closed(String),
    Timeout,
    Malformed(String),
}

impl Conn {
    pub async fn open(port: u16, patience: Duration) -> Option<Conn> {
        let deadline = tokio::time::Instant::now() + patience;
        loop {
            match TcpStream::connect(("127.0.0.1", port)).await {
                Ok(stream) => {
                    let _ = stream.set_nodelay(true);
                    return Some(Conn { stream, buf: vec![] });
                }
                Err(_) => {
                    if tokio::time::Instant::now() > deadline {
                        return None;
                    }
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
            }
        }
    }

    pub async fn send(&mut self, pieces: &[Vec<u8>], pause_ms: u64) -> bool {
        for (i, p) in pieces.iter().enumerate() {
            if i > 0 && pause_ms > 0 {
                tokio::time::sleep(Duration::from_millis(pause_ms)).await;
            }
            if self.stream.write_all(p).await.is_err() {
                return false;
            }
            let _ = self.stream.flush().await;
        }
        true
    }

    async fn more(&mut self) -> std::io::Result<usize> {
        let mut tmp = [0u8; 65536];
        let n = self.stream.read(&mut tmp).await?;
        self.buf.extend_from_slice(&tmp[..n]);
        Ok(n)
    }

    pub async fn recv(&mut self, head_only: bool, patience: Duration) -> Recv {
        match tokio::time::timeout(patience, self.recv_inner(head_only)).await {
            Ok(r) => r,
            Err(_) => Recv::Timeout,
        }
    }

    /// Is the connection closed by the server, with nothing more to read?
    pub async fn at_end(&mut self, patience: Duration) -> bool {
        if !self.buf.is_empty() {
            return false;
        }
        match tokio::time::timeout(patience, self.more()).await {
            Ok(Ok(0)) | Ok(Err(_)) => true,
            _ => false,
        }
    }

    /// Anything unread, or arriving within the given time?
    pub async fn surplus(&mut self, patience: Duration) -> Vec<u8> {
        let _ = tokio::time::timeout(patience, self.more()).await;
        self.buf.clone()
    }

    async fn recv_inner(&mut self, head_only: bool) -> Recv {
        loop {
            match self.recv_one(head_only).await {
                // the server only asks for the body here
                Recv::Resp(r) if r.status == 100 => {}
                other => return other,
            }
        }
    }

    async fn recv_one(&mut self, head_only: bool) -> Recv {
        let end = loop {
            if let Some(p) = find(&self.buf, b"\r\n\r\n") {
                break p;
            }
            match self.more().await {
                Ok(0) | Err(_) => {
                    if self.buf.is_empty() {
                        return Recv::Closed(String::new());
                    }
                    return Recv::Malformed(format!("closed inside head: {}", crate::util::sum(&self.buf)));
                }
                Ok(_) => {}
            }
        };
        let head = String::from_utf8_lossy(&self.buf[..end]).into_owned();
        self.buf.drain(..end + 4);
        let mut lines = head.split("\r\n");
        let status_line = lines.next().unwrap_or("");
        let mut parts = status_line.splitn(3, ' ');
        let version = parts.next().unwrap_or("").to_string();
        let status: u16 = match parts.next().and_then(|s| s.parse().ok()) {
            Some(s) => s,
            None => return Recv::Malformed(head),
        };
        let mut headers = vec![];
        for l in lines {
            match l.find(':') {
                Some(i) => headers.push((l[..i].to_ascii_lowercase(), l[i + 1..].trim_matches(|c| c == ' ' || c == '\t').to_string())),
                None => return Recv::Malformed(head),
            }
        }
        let get = |n: &str| headers.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone());
        let no_body = head_only || (100..200).contains(&status) || status == 204 || status == 304;
        let mut body = vec![];
        if no_body {
        } else if get("transfer-encoding").map_or(false, |v| v.to_ascii_lowercase().contains("chunked")) {
            loop {
                let p = loop {
                    if let Some(p) = find(&self.buf, b"\r\n") {
                        break p;
                    }
                    match self.more().await {
                        Ok(0) | Err(_) => return Recv::Malformed("closed inside chunk size".into()),
                        Ok(_) => {}
                    }
                };
                let line = String::from_utf8_lossy(&self.buf[..p]).into_owned();
                self.buf.drain(..p + 2);
                let n = match usize::from_str_radix(line.split(';').next().unwrap().trim(), 16) {
                    Ok(n) => n,
                    Err(_) => return Recv::Malformed(line),
                };
                while self.buf.len() < n + 2 {
                    match self.more().await {
                        Ok(0) | Err(_) => return Recv::Malformed("closed inside chunk".into()),
                        Ok(_) => {}
                    }
                }
                body.extend_from_slice(&self.buf[..n]);
                self.buf.drain(..n + 2);
                if n == 0 {
                    break;
                }
            }
        } else if let Some(n) = get("content-length") {
            let n: usize = match n.parse() {
                Ok(n) => n,
                Err(_) => return Recv::Malformed(head),
            };
            while self.buf.len() < n {
                match self.more().await {
                    Ok(0) | Err(_) => return Recv::Malformed(format!("body cut after {} of {} bytes", self.buf.len(), n)),
                    Ok(_) => {}
                }
            }
            body.extend_from_slice(&self.buf[..n]);
            self.buf.drain(..n);
        } else {
            loop {
                match self.more().await {
                    Ok(0) => break,
                    Err(_) => return Recv::Malformed("broken before the end of the body".into()),
                    Ok(_) => {}
                }
            }
            body = std::mem::take(&mut self.buf);
        }
        Recv::Resp(Resp { status, headers, body, version })
    }
}

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

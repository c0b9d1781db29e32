//! A stand-in for a TLS implementation: a hello byte sequence, then both directions xor'ed.
use rustful::net::{HttpStream, NetworkStream, SslServer};
use std::io::{self, Read, Write};
use std::net::{Shutdown, SocketAddr};
use std::time::Duration;

pub const KEY: u8 = 0x5A;

#[derive(Clone)]
pub struct Stub;

#[derive(Clone)]
pub struct Tls(HttpStream);

impl SslServer for Stub {
    type Stream = Tls;
    fn wrap_server(&self, mut stream: HttpStream) -> hyper::Result<Tls> {
        let mut hello = [0; 4];
        let mut n = 0;
        while n < 4 {
            match stream.read(&mut hello[n..]) {
                Ok(0) => return Err(hyper::Error::Ssl("eof in hello".into())),
                Ok(k) => n += k,
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
        if &hello != b"HELO" {
            return Err(hyper::Error::Ssl("bad hello".into()));
        }
        Ok(Tls(stream))
    }
}

impl Read for Tls {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.0.read(buf)?;
        for b in &mut buf[..n] {
            *b ^= KEY;
        }
        Ok(n)
    }
}

impl Write for Tls {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        // one record at a time
        let v: Vec<u8> = buf[..buf.len().min(1000)].iter().map(|b| b ^ KEY).collect();
        self.0.write(&v)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}

impl NetworkStream for Tls {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        self.0.peer_addr()
    }
    fn set_read_timeout(&self, dur: Option<Duration>) -> io::Result<()> {
        self.0.set_read_timeout(dur)
    }
    fn set_write_timeout(&self, dur: Option<Duration>) -> io::Result<()> {
        self.0.set_write_timeout(dur)
    }
    fn close(&mut self, how: Shutdown) -> io::Result<()> {
        self.0.close(how)
    }
}

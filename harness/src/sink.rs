//! Sinks that take bytes in pieces, are interrupted, or fail.

use std::io::{Error, ErrorKind, Result, Write};

pub const KINDS: u8 = 12;

pub struct Sink {
    pub got: Vec<u8>,
    /// Sizes of the pieces taken, used in turn; 0 means an interruption.
    pub pieces: Vec<usize>,
    pub at: usize,
    pub fail_at: Option<usize>,
    pub kind: u8,
    pub failed: bool,
    pub calls: usize,
}

impl Sink {
    pub fn plain() -> Sink {
        Sink { got: vec![], pieces: vec![], at: 0, fail_at: None, kind: 0, failed: false, calls: 0 }
    }
    pub fn pieces(p: Vec<usize>) -> Sink {
        Sink { pieces: p, ..Sink::plain() }
    }
    /// Fails when this many bytes have been taken. Kind: 0 other error, 1 broken pipe,
    /// 2 takes nothing (write returns 0), 3 would block, then other kinds of errors.
    pub fn failing(at: usize, kind: u8) -> Sink {
        Sink { fail_at: Some(at), kind, ..Sink::plain() }
    }
    fn failure(&mut self) -> Result<usize> {
        self.failed = true;
        match self.kind % KINDS {
            0 => Err(Error::new(ErrorKind::Other, "sink failure")),
            1 => Err(Error::from(ErrorKind::BrokenPipe)),
            2 => Ok(0),
            3 => Err(Error::from(ErrorKind::WouldBlock)),
            4 => Err(Error::from(ErrorKind::TimedOut)),
            5 => Err(Error::from(ErrorKind::ConnectionReset)),
            6 => Err(Error::from(ErrorKind::WriteZero)),
            7 => Err(Error::from(ErrorKind::UnexpectedEof)),
            8 => Err(Error::from(ErrorKind::InvalidInput)),
            9 => Err(Error::from(ErrorKind::PermissionDenied)),
            10 => Err(Error::from_raw_os_error(28)),
            _ => Err(Error::from(ErrorKind::NotConnected)),
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if !self.pieces.is_empty() {
            let p = self.pieces[self.at % self.pieces.len()];
            self.at += 1;
            if p == 0 {
                return Err(Error::from(ErrorKind::Interrupted));
            }
            n = n.min(p);
        }
        if let Some(f) = self.fail_at {
            let room = f.saturating_sub(self.got.len());
            if room == 0 {
                return self.failure();
            }
            n = n.min(room);
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

//! Readers that deliver a text in pieces, with interruptions, or fail.
use std::io::{Error, ErrorKind, Read};

pub struct Chunks<'a> {
    data: &'a [u8],
    sizes: &'a [u8],
    calls: usize,
    /// Every that many calls, the read is interrupted (0: never).
    interrupt: usize,
    /// What happens at the end of the data.
    end: Option<ErrorKind>,
}

impl<'a> Chunks<'a> {
    pub fn new(data: &'a [u8], sizes: &'a [u8], interrupt: u8) -> Self {
        Self { data, sizes, calls: 0, interrupt: interrupt as usize, end: None }
    }
    pub fn failing(data: &'a [u8], sizes: &'a [u8], interrupt: u8, end: ErrorKind) -> Self {
        Self { end: Some(end), ..Self::new(data, sizes, interrupt) }
    }
}

impl Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % (self.interrupt + 1) == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.data.is_empty() {
            return match self.end {
                Some(kind) => Err(Error::from(kind)),
                None => Ok(0),
            };
        }
        let n = (self.sizes[self.calls % self.sizes.len()] as usize)
            .max(1)
            .min(buf.len())
            .min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

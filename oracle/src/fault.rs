//! A tape whose operations may fail.
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom};

pub struct Faulty {
    inner: Cursor<Vec<u8>>,
    pub operations: usize,
    at: usize,
    kind: ErrorKind,
    pub slow: bool,
    turn: usize,
}

impl Faulty {
    pub fn new(data: Vec<u8>, at: usize, kind: ErrorKind) -> Self {
        Faulty { inner: Cursor::new(data), operations: 0, at, kind, slow: false, turn: 0 }
    }
    fn tick(&mut self) -> Result<()> {
        self.operations += 1;
        if self.operations - 1 == self.at {
            return Err(Error::new(self.kind, "injected"));
        }
        Ok(())
    }
}

impl Read for Faulty {
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        self.tick()?;
        if self.slow {
            self.turn += 1;
            if self.turn % 3 == 0 {
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            let count = buffer.len().min(1);
            return self.inner.read(&mut buffer[..count]);
        }
        self.inner.read(buffer)
    }
}

impl Seek for Faulty {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.tick()?;
        self.inner.seek(to)
    }
}

/// A tape with a hole in it, which is filled with the same byte throughout.
#[derive(Clone)]
pub struct Sparse {
    data: std::rc::Rc<Vec<u8>>,
    at: u64,
    size: u64,
    position: u64,
}

impl Sparse {
    pub fn new(data: Vec<u8>, at: u64, size: u64, position: u64) -> Self {
        Sparse { data: std::rc::Rc::new(data), at, size, position }
    }
}

impl Read for Sparse {
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        let mut count = 0;
        while count < buffer.len() {
            let position = self.position;
            if position < self.at || position >= self.at + self.size {
                let place = if position < self.at { position } else { position - self.size };
                let Some(byte) = self.data.get(place as usize) else { break };
                buffer[count] = *byte;
                count += 1;
                self.position += 1;
            } else {
                let more = ((self.at + self.size - position) as usize).min(buffer.len() - count);
                buffer[count..count + more].fill(0);
                count += more;
                self.position += more as u64;
            }
        }
        Ok(count)
    }
}

impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let length = (self.data.len() as u64 + self.size) as i128;
        let position = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => length + n as i128,
            SeekFrom::Current(n) => self.position as i128 + n as i128,
        };
        self.position = u64::try_from(position).map_err(|_| Error::from(ErrorKind::InvalidInput))?;
        Ok(self.position)
    }
}

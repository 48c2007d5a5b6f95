//! A sink and a source that answer from a script and log every call.
use std::io::{Error, ErrorKind, Read, Result, Write};

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    /// accept or deliver at most this many bytes (at least one)
    Some(usize),
    Intr,
    Fail(usize),
    /// Ok(0): a full sink, or the end of the source
    Zero,
}

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::ConnectionAborted,
    ErrorKind::OutOfMemory,
];

fn fail(i: usize) -> Error {
    let k = KINDS[i % KINDS.len()];
    if i % 2 == 0 { Error::from(k) } else { Error::new(k, "scripted failure") }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// sink took these bytes, or source delivered this many
    Took(Vec<u8>),
    Gave(usize),
    Intr,
    Fail,
    Zero,
}

/// Answers from the script; afterwards `rest`.
pub struct Script {
    pub steps: Vec<Ans>,
    pub at: usize,
    pub rest: Ans,
}
impl Script {
    pub fn new(steps: Vec<Ans>, rest: Ans) -> Script {
        Script { steps, at: 0, rest }
    }
    fn next(&mut self) -> Ans {
        let a = self.steps.get(self.at).cloned().unwrap_or_else(|| self.rest.clone());
        self.at += 1;
        a
    }
}

pub struct Sink {
    pub script: Script,
    pub net: Vec<u8>,
    pub log: Vec<Ev>,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        match self.script.next() {
            Ans::Some(k) => {
                let k = k.clamp(1, b.len());
                self.net.extend_from_slice(&b[..k]);
                match self.log.last_mut() {
                    Some(Ev::Took(v)) => v.extend_from_slice(&b[..k]),
                    _ => self.log.push(Ev::Took(b[..k].to_vec())),
                }
                Ok(k)
            }
            Ans::Intr => {
                self.log.push(Ev::Intr);
                Err(Error::from(ErrorKind::Interrupted))
            }
            Ans::Fail(i) => {
                self.log.push(Ev::Fail);
                Err(fail(i))
            }
            Ans::Zero => {
                self.log.push(Ev::Zero);
                Ok(0)
            }
        }
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

pub struct Source<'a> {
    pub script: Script,
    pub data: &'a [u8],
    pub pos: usize,
    pub log: Vec<Ev>,
}
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        match self.script.next() {
            Ans::Some(k) => {
                let k = k.max(1).min(b.len()).min(self.data.len() - self.pos);
                if k == 0 {
                    self.log.push(Ev::Zero);
                    return Ok(0);
                }
                b[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
                self.pos += k;
                match self.log.last_mut() {
                    Some(Ev::Gave(n)) => *n += k,
                    _ => self.log.push(Ev::Gave(k)),
                }
                Ok(k)
            }
            Ans::Intr => {
                self.log.push(Ev::Intr);
                Err(Error::from(ErrorKind::Interrupted))
            }
            Ans::Fail(i) => {
                self.log.push(Ev::Fail);
                Err(fail(i))
            }
            Ans::Zero => {
                self.log.push(Ev::Zero);
                Ok(0)
            }
        }
    }
}

/// A source that is a plain slice, but counts what was taken.
pub struct Plain<'a> {
    pub data: &'a [u8],
    pub pos: usize,
}
impl Read for Plain<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let k = b.len().min(self.data.len() - self.pos);
        b[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}

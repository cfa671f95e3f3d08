//! In-memory stores under the library's hierarchy implementation, with hostile
//! transfer behaviour and injected failures.

use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::sync::{Arc, Mutex};
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};
use zarr::{EntryPointMetadata, Hierarchy};

use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum StoreOp {
    Exists,
    Get,
    Read,
    Set,
    Write,
    Flush,
    Erase,
    ErasePrefix,
    ListDir,
}

#[derive(Clone, Debug)]
pub struct Hostility {
    pub rng: Rng,
    /// Largest transfer per call; 0 for unlimited.
    pub max_io: usize,
    /// Calls are interrupted with probability 1 in n; 0 for never.
    pub interrupt: u64,
    /// Size of the writer's own buffer, written out when full, flushed or dropped.
    pub buffer: usize,
}

#[derive(Default)]
pub struct Faults {
    /// Fail the n-th operation from now on (and those of the same kind after it if sticky).
    pub at: Option<u64>,
    pub sticky: bool,
    pub kind: Option<ErrorKind>,
    pub count: u64,
    pub fired: Option<StoreOp>,
    pub log: Vec<StoreOp>,
}

pub struct Inner {
    pub data: BTreeMap<String, Arc<Mutex<Vec<u8>>>>,
    pub hostility: Option<Hostility>,
    pub faults: Faults,
    pub ops: u64,
    /// Keys whose values can not be accessed.
    pub broken: std::collections::BTreeSet<String>,
}

#[derive(Clone)]
pub struct MemHierarchy {
    pub inner: Arc<Mutex<Inner>>,
    entry: EntryPointMetadata,
}

fn normalize(key: &str) -> Result<String> {
    let mut parts: Vec<&str> = vec![];
    for c in key.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                if parts.pop().is_none() {
                    return Err(Error::new(ErrorKind::NotFound, "outside of the store"));
                }
            }
            c => parts.push(c),
        }
    }
    Ok(parts.join("/"))
}

impl MemHierarchy {
    pub fn new(hostility: Option<Hostility>) -> MemHierarchy {
        MemHierarchy {
            inner: Arc::new(Mutex::new(Inner {
                data: BTreeMap::new(),
                hostility,
                faults: Faults::default(),
                ops: 0,
                broken: Default::default(),
            })),
            entry: EntryPointMetadata::default(),
        }
    }

    pub fn with_suffix(suffix: &str, hostility: Option<Hostility>) -> MemHierarchy {
        let mut m = MemHierarchy::new(hostility);
        m.entry = entry_point(suffix);
        m
    }

    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        let i = self.inner.lock().unwrap();
        i.data.iter().map(|(k, v)| (k.clone(), v.lock().unwrap().clone())).collect()
    }

    pub fn put(&self, key: &str, value: Vec<u8>) {
        self.inner.lock().unwrap().data.insert(key.into(), Arc::new(Mutex::new(value)));
    }

    pub fn set_faults(&self, f: Faults) -> Faults {
        std::mem::replace(&mut self.inner.lock().unwrap().faults, f)
    }

    fn op(&self, op: StoreOp) -> Result<()> {
        op_on(&self.inner, op)
    }

    fn usable(&self, key: &str) -> Result<()> {
        if self.inner.lock().unwrap().broken.contains(key) {
            return Err(Error::new(ErrorKind::Other, "this value can not be accessed"));
        }
        Ok(())
    }
}

fn op_on(inner: &Mutex<Inner>, op: StoreOp) -> Result<()> {
    let mut i = inner.lock().unwrap();
    i.ops += 1;
    let f = &mut i.faults;
    let n = f.count;
    f.count += 1;
    if f.log.len() < 4096 {
        f.log.push(op);
    }
    let fail = match f.at {
        Some(at) if n == at => true,
        Some(at) if n > at && f.sticky => f.fired == Some(op),
        _ => false,
    };
    if fail {
        f.fired = Some(op);
        return Err(Error::new(f.kind.unwrap_or(ErrorKind::Other), "injected failure"));
    }
    Ok(())
}

/// How many bytes to transfer, or an interruption.
fn transfer(inner: &Mutex<Inner>, n: usize) -> Result<usize> {
    let mut i = inner.lock().unwrap();
    match &mut i.hostility {
        Some(h) if n > 0 => {
            if h.interrupt > 0 && h.rng.chance(1, h.interrupt) {
                return Err(ErrorKind::Interrupted.into());
            }
            if h.max_io > 0 {
                return Ok(n.min(1 + h.rng.usize(h.max_io)));
            }
            Ok(n)
        }
        _ => Ok(n),
    }
}

pub fn entry_point(suffix: &str) -> EntryPointMetadata {
    serde_json::from_value(serde_json::json!({
        "zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_key_suffix": suffix,
        "extensions": [],
    }))
    .expect("entry point")
}

impl Hierarchy for MemHierarchy {
    fn get_entry_point_metadata(&self) -> &EntryPointMetadata {
        &self.entry
    }
}

pub struct MemReader {
    inner: Arc<Mutex<Inner>>,
    value: Arc<Mutex<Vec<u8>>>,
    at: usize,
}

impl Read for MemReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        op_on(&self.inner, StoreOp::Read)?;
        let want = transfer(&self.inner, buf.len())?;
        let v = self.value.lock().unwrap();
        let n = want.min(v.len().saturating_sub(self.at));
        buf[..n].copy_from_slice(&v[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

pub struct MemWriter {
    inner: Arc<Mutex<Inner>>,
    value: Arc<Mutex<Vec<u8>>>,
    buf: Vec<u8>,
    cap: usize,
}

impl MemWriter {
    fn write_out(&mut self) -> Result<()> {
        while !self.buf.is_empty() {
            op_on(&self.inner, StoreOp::Write)?;
            self.value.lock().unwrap().append(&mut self.buf);
        }
        Ok(())
    }
}

impl Write for MemWriter {
    fn write(&mut self, data: &[u8]) -> Result<usize> {
        if self.cap == 0 {
            match op_on(&self.inner, StoreOp::Write) {
                // A writer that takes nothing does not fail itself.
                Err(e) if e.kind() == ErrorKind::WriteZero && !data.is_empty() => return Ok(0),
                o => o?,
            }
            let n = transfer(&self.inner, data.len())?;
            self.value.lock().unwrap().extend_from_slice(&data[..n]);
            return Ok(n);
        }
        let n = transfer(&self.inner, data.len())?;
        if self.buf.len() >= self.cap {
            self.write_out()?;
        }
        self.buf.extend_from_slice(&data[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> Result<()> {
        self.write_out()?;
        op_on(&self.inner, StoreOp::Flush)
    }
}

impl Drop for MemWriter {
    fn drop(&mut self) {
        // Like `BufWriter`: errors are lost here.
        let _ = self.write_out();
    }
}

impl ReadableStore for MemHierarchy {
    type GetReader = MemReader;

    fn exists(&self, key: &str) -> Result<bool> {
        let key = normalize(key)?;
        self.op(StoreOp::Exists)?;
        self.usable(&key)?;
        Ok(self.inner.lock().unwrap().data.contains_key(&key))
    }

    fn get(&self, key: &str) -> Result<Option<MemReader>> {
        let key = normalize(key)?;
        self.op(StoreOp::Get)?;
        self.usable(&key)?;
        let value = self.inner.lock().unwrap().data.get(&key).cloned();
        Ok(value.map(|value| MemReader { inner: self.inner.clone(), value, at: 0 }))
    }

    fn uri(&self, key: &str) -> Result<String> {
        Ok(format!("mem://{}", normalize(key)?))
    }
}

impl ListableStore for MemHierarchy {
    fn list_dir(&self, prefix: &str) -> Result<(Vec<String>, Vec<String>)> {
        let dir = normalize(prefix)?;
        self.op(StoreOp::ListDir)?;
        let shown = prefix.trim_end_matches('/');
        let dir = if dir.is_empty() { dir } else { dir + "/" };
        let mut keys = vec![];
        let mut prefixes: Vec<String> = vec![];
        for k in self.inner.lock().unwrap().data.keys() {
            if let Some(rest) = k.strip_prefix(&dir) {
                match rest.find('/') {
                    None => keys.push(format!("{}/{}", shown, rest)),
                    Some(i) => prefixes.push(format!("{}/{}", shown, &rest[..i])),
                }
            }
        }
        prefixes.sort();
        prefixes.dedup();
        Ok((keys, prefixes))
    }
}

impl WriteableStore for MemHierarchy {
    type SetWriter = MemWriter;

    fn set<F: FnOnce(MemWriter) -> Result<()>>(&self, key: &str, value: F) -> Result<()> {
        let key = normalize(key)?;
        self.op(StoreOp::Set)?;
        self.usable(&key)?;
        let v = Arc::new(Mutex::new(Vec::new()));
        let cap = {
            let mut i = self.inner.lock().unwrap();
            i.data.insert(key, v.clone());
            i.hostility.as_ref().map_or(0, |h| h.buffer)
        };
        value(MemWriter { inner: self.inner.clone(), value: v, buf: vec![], cap })
    }

    fn erase(&self, key: &str) -> Result<bool> {
        let key = normalize(key)?;
        self.op(StoreOp::Erase)?;
        self.usable(&key)?;
        self.inner.lock().unwrap().data.remove(&key);
        Ok(true)
    }

    fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
        let dir = normalize(key_prefix)?;
        self.op(StoreOp::ErasePrefix)?;
        let below = if dir.is_empty() { String::new() } else { format!("{}/", dir) };
        self.inner.lock().unwrap().data.retain(|k, _| !(k.starts_with(&below) || *k == dir));
        Ok(true)
    }
}

//! Stand-in for the rocksdb crate (not available offline): an ordered map with RocksDB's semantics for the
//! calls the repository makes, and injectable failures. Trusted: that RocksDB's own write batches are atomic.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt;
use std::ops::Bound;
use std::path::{Path, PathBuf};
use std::sync::{Mutex, RwLock};

thread_local! { static FAIL_IN: Cell<u32> = const { Cell::new(0) }; }

/// Make the n-th next database call of this thread fail (0: none).
pub fn fail_in(n: u32) {
    FAIL_IN.with(|f| f.set(n))
}

thread_local! { static FAIL_WRITE_IN: Cell<u32> = const { Cell::new(0) }; }

/// Make the n-th next writing call of this thread fail (0: none).
pub fn fail_write_in(n: u32) {
    FAIL_WRITE_IN.with(|f| f.set(n))
}

fn tick_write() -> Result<(), Error> {
    FAIL_WRITE_IN.with(|f| match f.get() {
        0 => Ok(()),
        1 => {
            f.set(0);
            Err(Error::new("injected I/O error"))
        }
        n => {
            f.set(n - 1);
            Ok(())
        }
    })
}

/// Whether the failure has not been hit yet
pub fn fail_pending() -> bool {
    FAIL_IN.with(|f| f.get() > 0)
}

fn tick() -> Result<(), Error> {
    FAIL_IN.with(|f| match f.get() {
        0 => Ok(()),
        1 => {
            f.set(0);
            Err(Error::new("injected I/O error"))
        }
        n => {
            f.set(n - 1);
            Ok(())
        }
    })
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ErrorKind { IOError, Unknown }

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error { message: String }
impl Error {
    fn new(m: &str) -> Self { Error { message: m.into() } }
    pub fn into_string(self) -> String { self.message }
    pub fn kind(&self) -> ErrorKind { ErrorKind::IOError }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.message) }
}
impl std::error::Error for Error {}

#[derive(Clone, Default, Debug)]
pub struct Options;
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
    pub fn create_missing_column_families(&mut self, _: bool) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
    pub fn set_keep_log_file_num(&mut self, _: usize) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
}
#[derive(Default)]
pub struct WriteOptions;
impl WriteOptions {
    pub fn set_sync(&mut self, _: bool) {}
    pub fn disable_wal(&mut self, _: bool) {}
}
#[derive(Default)]
pub struct ReadOptions;

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Kv = (Box<[u8]>, Box<[u8]>);

enum Op { Put(Vec<u8>, Vec<u8>), Delete(Vec<u8>) }

#[derive(Default)]
pub struct WriteBatch { ops: Vec<Op> }
impl WriteBatch {
    pub fn new() -> Self { Self::default() }
    pub fn with_capacity_bytes(_: usize) -> Self { Self::default() }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) { self.ops.push(Op::Put(k.as_ref().to_vec(), v.as_ref().to_vec())) }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) { self.ops.push(Op::Delete(k.as_ref().to_vec())) }
    pub fn len(&self) -> usize { self.ops.len() }
    pub fn is_empty(&self) -> bool { self.ops.is_empty() }
    pub fn clear(&mut self) { self.ops.clear() }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Direction { Forward, Reverse }
pub enum IteratorMode<'a> { Start, End, From(&'a [u8], Direction) }

pub struct DB { map: RwLock<Map>, path: PathBuf, log: Mutex<u64> }

impl Default for DB {
    fn default() -> Self { DB { map: Default::default(), path: PathBuf::new(), log: Mutex::new(0) } }
}

pub type DBIterator<'a> = Box<dyn Iterator<Item = Result<Kv, Error>> + 'a>;

impl DB {
    pub fn open_default<P: AsRef<Path>>(p: P) -> Result<Self, Error> { Self::open(&Options, p) }
    pub fn open<P: AsRef<Path>>(_: &Options, p: P) -> Result<Self, Error> {
        tick_write()?;
        tick_write()?;
        tick()?;
        Ok(DB { path: p.as_ref().into(), ..Default::default() })
    }
    pub fn path(&self) -> &Path { &self.path }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        tick()?;
        Ok(self.map.read().unwrap().get(k.as_ref()).cloned())
    }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> { self.get(k) }
    pub fn key_may_exist<K: AsRef<[u8]>>(&self, _k: K) -> bool { true }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        tick()?;
        *self.log.lock().unwrap() += 1;
        self.map.write().unwrap().insert(k.as_ref().to_vec(), v.as_ref().to_vec());
        Ok(())
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V, _: &WriteOptions) -> Result<(), Error> { self.put(k, v) }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        tick()?;
        *self.log.lock().unwrap() += 1;
        self.map.write().unwrap().remove(k.as_ref());
        Ok(())
    }
    pub fn delete_opt<K: AsRef<[u8]>>(&self, k: K, _: &WriteOptions) -> Result<(), Error> { self.delete(k) }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        tick_write()?;
        tick()?;
        *self.log.lock().unwrap() += 1;
        let mut m = self.map.write().unwrap();
        for op in b.ops {
            match op {
                Op::Put(k, v) => { m.insert(k, v); }
                Op::Delete(k) => { m.remove(&k); }
            }
        }
        Ok(())
    }
    pub fn write_opt(&self, b: WriteBatch, _: &WriteOptions) -> Result<(), Error> { self.write(b) }
    pub fn flush(&self) -> Result<(), Error> { Ok(()) }

    fn items(&self, from: Bound<&[u8]>) -> Vec<Result<Kv, Error>> {
        self.map
            .read()
            .unwrap()
            .range::<[u8], _>((from, Bound::Unbounded))
            .map(|(k, v)| Ok((k.clone().into_boxed_slice(), v.clone().into_boxed_slice())))
            .collect()
    }
    /// As RocksDB without a prefix extractor: starts at the prefix and goes on to the end of the database.
    pub fn prefix_iterator<'a, P: AsRef<[u8]>>(&'a self, p: P) -> DBIterator<'a> {
        Box::new(self.items(Bound::Included(p.as_ref())).into_iter())
    }
    pub fn iterator<'a>(&'a self, m: IteratorMode<'_>) -> DBIterator<'a> {
        match m {
            IteratorMode::Start => Box::new(self.items(Bound::Unbounded).into_iter()),
            IteratorMode::End => Box::new(self.items(Bound::Unbounded).into_iter().rev()),
            IteratorMode::From(k, Direction::Forward) => Box::new(self.items(Bound::Included(k)).into_iter()),
            IteratorMode::From(k, Direction::Reverse) => {
                let k = k.to_vec();
                Box::new(self.items(Bound::Unbounded).into_iter().rev().skip_while(move |x| x.as_ref().unwrap().0[..] > k[..]))
            }
        }
    }
    pub fn full_iterator<'a>(&'a self, m: IteratorMode<'_>) -> DBIterator<'a> { self.iterator(m) }
}

// In-memory file system replacing std's `sys/fs/unsupported.rs` in the
// symbolic (wasm64) build of avdl.  Contract modelled: POSIX-like paths rooted
// at `/`, regular files and directories, symbolic links (created through
// `symlink`), `canonicalize` resolving `.`, `..` and links, NotFound for absent
// paths, no permission or I/O errors.
use crate::ffi::OsString;
use crate::fmt;
use crate::fs::TryLockError;
use crate::hash::{Hash, Hasher};
use crate::io::{self, BorrowedCursor, IoSlice, IoSliceMut, SeekFrom};
use crate::path::{Path, PathBuf};
pub use crate::sys::fs::common::{Dir, ExtraHomeDirs, ExtraMediaDirs};
use crate::sys::time::SystemTime;
use crate::sys::unsupported;
use crate::sync::Mutex;
use crate::vec::Vec;
use crate::string::String;

enum Node { File(Vec<u8>), Dir, Link(Vec<u8>) }
static FILES: Mutex<Vec<(Vec<u8>, Node)>> = Mutex::new(Vec::new());

fn nf() -> io::Error { io::Error::from(io::ErrorKind::NotFound) }

fn lookup(t: &[(Vec<u8>, Node)], p: &[u8]) -> Option<usize> {
    t.iter().position(|(q, _)| q.as_slice() == p)
}

/// Resolve to an absolute normalized path; follows links in every component
/// (the last one only when `follow`).
fn resolve(t: &[(Vec<u8>, Node)], p: &Path, follow: bool) -> io::Result<Vec<u8>> {
    let bytes = p.as_os_str().as_encoded_bytes();
    if bytes.is_empty() { return Err(nf()); }
    let mut todo: Vec<Vec<u8>> = Vec::new();
    if bytes[0] != b'/' { todo.push(b"w".to_vec()); }
    for c in bytes.split(|b| *b == b'/') { todo.push(c.to_vec()); }
    todo.reverse();
    let mut out: Vec<u8> = Vec::new();
    let mut hops = 0;
    while let Some(c) = todo.pop() {
        if c.is_empty() || c == b"." {
            continue;
        }
        if c == b".." {
            // `..` of something that is not a directory does not exist.
            if !out.is_empty() && !matches!(lookup(t, &out).map(|i| &t[i].1), Some(Node::Dir)) {
                return Err(nf());
            }
            while let Some(b) = out.pop() { if b == b'/' { break; } }
            continue;
        }
        let keep = out.len();
        out.push(b'/');
        out.extend_from_slice(&c);
        if let Some(i) = lookup(t, &out) {
            if let Node::Link(target) = &t[i].1 {
                if follow || !todo.is_empty() {
                    hops += 1;
                    if hops > 40 { return Err(io::Error::from(io::ErrorKind::FilesystemLoop)); }
                    let mut comps: Vec<Vec<u8>> = target.split(|b| *b == b'/').map(|s| s.to_vec()).collect();
                    comps.reverse();
                    todo.extend(comps);
                    if target.first() == Some(&b'/') { out.clear(); } else { out.truncate(keep); }
                }
            }
        }
    }
    if out.is_empty() { out.push(b'/'); }
    Ok(out)
}

fn to_path(b: Vec<u8>) -> PathBuf { PathBuf::from(unsafe { OsString::from_encoded_bytes_unchecked(b) }) }

pub(crate) fn append_raw(path: &str, data: &[u8]) {
    let mut t = FILES.lock().unwrap();
    match lookup(&t, path.as_bytes()) {
        Some(i) => if let Node::File(f) = &mut t[i].1 { f.extend_from_slice(data) },
        None => t.push((path.as_bytes().to_vec(), Node::File(data.to_vec()))),
    }
}
pub(crate) fn read_raw(path: &str) -> Option<Vec<u8>> {
    let t = FILES.lock().unwrap();
    match &t[lookup(&t, path.as_bytes())?].1 { Node::File(f) => Some(f.clone()), _ => None }
}

/// No file, nor what is written to the standard output, can be longer than what
/// /dev/limit says (a decimal number), as under RLIMIT_FSIZE.
fn limit() -> usize {
    match read_raw("/dev/limit") { Some(d) if !d.is_empty() => d.iter().fold(0, |n, b| n * 10 + (*b - b'0') as usize), _ => usize::MAX }
}
pub(crate) fn append_out(data: &[u8]) -> io::Result<usize> {
    let limit = limit();
    let n = if limit == usize::MAX { data.len() } else { data.len().min(limit.saturating_sub(read_raw("/dev/stdout").map_or(0, |d| d.len()))) };
    if n == 0 && !data.is_empty() { return Err(io::Error::from(io::ErrorKind::FileTooLarge)) }
    append_raw("/dev/stdout", &data[..n]);
    Ok(n)
}

pub struct File { path: Vec<u8>, append: bool, pos: crate::cell::Cell<usize> }
unsafe impl Sync for File {}

#[derive(Clone)]
pub struct FileAttr { kind: u8, len: u64 }

pub struct ReadDir { root: PathBuf, items: Vec<(Vec<u8>, u8, u64)>, at: usize }

pub struct DirEntry { root: PathBuf, name: Vec<u8>, attr: FileAttr }

#[derive(Clone, Debug)]
pub struct OpenOptions { read: bool, write: bool, append: bool, truncate: bool, create: bool, create_new: bool }

#[derive(Copy, Clone, Debug, Default)]
pub struct FileTimes {}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct FilePermissions(bool);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct FileType(u8);

#[derive(Debug)]
pub struct DirBuilder {}

impl Drop for File { fn drop(&mut self) {} }
impl Drop for ReadDir { fn drop(&mut self) {} }
impl Drop for DirEntry { fn drop(&mut self) {} }

impl FileAttr {
    pub fn size(&self) -> u64 { self.len }
    pub fn perm(&self) -> FilePermissions { FilePermissions(false) }
    pub fn file_type(&self) -> FileType { FileType(self.kind) }
    pub fn modified(&self) -> io::Result<SystemTime> { unsupported() }
    pub fn accessed(&self) -> io::Result<SystemTime> { unsupported() }
    pub fn created(&self) -> io::Result<SystemTime> { unsupported() }
}

impl FilePermissions {
    pub fn readonly(&self) -> bool { self.0 }
    pub fn set_readonly(&mut self, r: bool) { self.0 = r }
}

impl FileTimes {
    pub fn set_accessed(&mut self, _t: SystemTime) {}
    pub fn set_modified(&mut self, _t: SystemTime) {}
}

impl FileType {
    pub fn is_dir(&self) -> bool { self.0 == 1 }
    pub fn is_file(&self) -> bool { self.0 == 0 }
    pub fn is_symlink(&self) -> bool { self.0 == 2 }
}

impl ReadDir {
    pub fn dir(&self) -> io::Result<Dir> { unsupported() }
}

impl fmt::Debug for ReadDir {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("ReadDir") }
}

impl Iterator for ReadDir {
    type Item = io::Result<DirEntry>;
    fn next(&mut self) -> Option<io::Result<DirEntry>> {
        let (n, k, l) = self.items.get(self.at)?.clone();
        self.at += 1;
        Some(Ok(DirEntry { root: self.root.clone(), name: n, attr: FileAttr { kind: k, len: l } }))
    }
}

impl DirEntry {
    pub fn path(&self) -> PathBuf { self.root.join(to_path(self.name.clone())) }
    pub fn file_name(&self) -> OsString { to_path(self.name.clone()).into_os_string() }
    pub fn metadata(&self) -> io::Result<FileAttr> { Ok(self.attr.clone()) }
    pub fn file_type(&self) -> io::Result<FileType> { Ok(FileType(self.attr.kind)) }
}

impl OpenOptions {
    pub fn new() -> OpenOptions {
        OpenOptions { read: false, write: false, append: false, truncate: false, create: false, create_new: false }
    }
    pub fn read(&mut self, v: bool) { self.read = v }
    pub fn write(&mut self, v: bool) { self.write = v }
    pub fn append(&mut self, v: bool) { self.append = v }
    pub fn truncate(&mut self, v: bool) { self.truncate = v }
    pub fn create(&mut self, v: bool) { self.create = v }
    pub fn create_new(&mut self, v: bool) { self.create_new = v }
}

fn parent_is_dir(t: &[(Vec<u8>, Node)], p: &[u8]) -> bool {
    let cut = p.iter().rposition(|b| *b == b'/').unwrap_or(0);
    cut == 0 || matches!(lookup(t, &p[..cut]).map(|i| &t[i].1), Some(Node::Dir))
}

impl File {
    pub fn open(path: &Path, o: &OpenOptions) -> io::Result<File> {
        let mut t = FILES.lock().unwrap();
        let p = resolve(&t, path, true)?;
        match lookup(&t, &p) {
            Some(i) => {
                if o.create_new { return Err(io::Error::from(io::ErrorKind::AlreadyExists)); }
                match &mut t[i].1 {
                    Node::File(f) => if o.truncate { f.clear() },
                    _ => return Err(io::Error::from(io::ErrorKind::IsADirectory)),
                }
            }
            None => {
                if !(o.create || o.create_new) || !parent_is_dir(&t, &p) { return Err(nf()); }
                t.push((p.clone(), Node::File(Vec::new())));
            }
        }
        Ok(File { path: p, append: o.append, pos: crate::cell::Cell::new(0) })
    }
    fn with<R>(&self, f: impl FnOnce(&mut Vec<u8>) -> R) -> io::Result<R> {
        let mut t = FILES.lock().unwrap();
        match lookup(&t, &self.path) {
            Some(i) => match &mut t[i].1 { Node::File(d) => Ok(f(d)), _ => Err(nf()) },
            None => Err(nf()),
        }
    }
    pub fn file_attr(&self) -> io::Result<FileAttr> {
        self.with(|d| FileAttr { kind: 0, len: d.len() as u64 })
    }
    pub fn fsync(&self) -> io::Result<()> { Ok(()) }
    pub fn datasync(&self) -> io::Result<()> { Ok(()) }
    pub fn lock(&self) -> io::Result<()> { Ok(()) }
    pub fn lock_shared(&self) -> io::Result<()> { Ok(()) }
    pub fn try_lock(&self) -> Result<(), TryLockError> { Ok(()) }
    pub fn try_lock_shared(&self) -> Result<(), TryLockError> { Ok(()) }
    pub fn unlock(&self) -> io::Result<()> { Ok(()) }
    pub fn truncate(&self, size: u64) -> io::Result<()> { self.with(|d| d.resize(size as usize, 0)) }
    pub fn read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let pos = self.pos.get();
        let n = self.with(|d| {
            let n = buf.len().min(d.len().saturating_sub(pos));
            buf[..n].copy_from_slice(&d[pos..pos + n]);
            n
        })?;
        self.pos.set(pos + n);
        Ok(n)
    }
    pub fn read_vectored(&self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        io::default_read_vectored(|b| self.read(b), bufs)
    }
    pub fn is_read_vectored(&self) -> bool { false }
    pub fn read_buf(&self, cursor: BorrowedCursor<'_, u8>) -> io::Result<()> {
        io::default_read_buf(|b| self.read(b), cursor)
    }
    pub fn write(&self, buf: &[u8]) -> io::Result<usize> {
        let mut pos = self.pos.get();
        let limit = limit();
        let n = self.with(|d| {
            if self.append { pos = d.len() }
            let n = buf.len().min(limit.saturating_sub(pos));
            if d.len() < pos + n { d.resize(pos + n, 0) }
            d[pos..pos + n].copy_from_slice(&buf[..n]);
            n
        })?;
        if n == 0 && !buf.is_empty() { return Err(io::Error::from(io::ErrorKind::FileTooLarge)) }
        self.pos.set(pos + n);
        Ok(n)
    }
    pub fn write_vectored(&self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        io::default_write_vectored(|b| self.write(b), bufs)
    }
    pub fn is_write_vectored(&self) -> bool { false }
    pub fn flush(&self) -> io::Result<()> { Ok(()) }
    pub fn seek(&self, p: SeekFrom) -> io::Result<u64> {
        let len = self.file_attr()?.len as i64;
        let np = match p {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(n) => len + n,
            SeekFrom::Current(n) => self.pos.get() as i64 + n,
        };
        self.pos.set(np as usize);
        Ok(np as u64)
    }
    pub fn size(&self) -> Option<io::Result<u64>> { Some(self.file_attr().map(|a| a.len)) }
    pub fn tell(&self) -> io::Result<u64> { Ok(self.pos.get() as u64) }
    pub fn duplicate(&self) -> io::Result<File> { unsupported() }
    pub fn set_permissions(&self, _perm: FilePermissions) -> io::Result<()> { Ok(()) }
    pub fn set_times(&self, _times: FileTimes) -> io::Result<()> { Ok(()) }
}

impl DirBuilder {
    pub fn new() -> DirBuilder { DirBuilder {} }
    pub fn mkdir(&self, p: &Path) -> io::Result<()> {
        let mut t = FILES.lock().unwrap();
        let p = resolve(&t, p, true)?;
        if p == b"/" || lookup(&t, &p).is_some() {
            return Err(io::Error::from(io::ErrorKind::AlreadyExists));
        }
        if !parent_is_dir(&t, &p) { return Err(nf()); }
        t.push((p, Node::Dir));
        Ok(())
    }
}

impl fmt::Debug for File {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("File") }
}

fn attr_of(n: &Node) -> FileAttr {
    match n {
        Node::File(d) => FileAttr { kind: 0, len: d.len() as u64 },
        Node::Dir => FileAttr { kind: 1, len: 0 },
        Node::Link(_) => FileAttr { kind: 2, len: 0 },
    }
}

pub fn readdir(p: &Path) -> io::Result<ReadDir> {
    let t = FILES.lock().unwrap();
    let q = resolve(&t, p, true)?;
    if q != b"/" {
        match lookup(&t, &q).map(|i| &t[i].1) {
            Some(Node::Dir) => {}
            Some(_) => return Err(io::Error::from(io::ErrorKind::NotADirectory)),
            None => return Err(nf()),
        }
    }
    let plen = if q == b"/" { 1 } else { q.len() + 1 };
    let mut items = Vec::new();
    for (n, node) in t.iter() {
        if n.len() > plen && n[..q.len()] == q[..] && n[plen - 1] == b'/' && !n[plen..].contains(&b'/') {
            let a = attr_of(node);
            items.push((n[plen..].to_vec(), a.kind, a.len));
        }
    }
    Ok(ReadDir { root: p.to_path_buf(), items, at: 0 })
}

pub fn unlink(p: &Path) -> io::Result<()> {
    let mut t = FILES.lock().unwrap();
    let q = resolve(&t, p, false)?;
    match lookup(&t, &q) { Some(i) => { t.remove(i); Ok(()) } None => Err(nf()) }
}
pub fn rename(_old: &Path, _new: &Path) -> io::Result<()> { unsupported() }
pub fn rename_noreplace(_old: &Path, _new: &Path) -> io::Result<()> { unsupported() }
pub fn set_perm(_p: &Path, _perm: FilePermissions) -> io::Result<()> { Ok(()) }
pub fn set_perm_nofollow(_p: &Path, _perm: FilePermissions) -> io::Result<()> { Ok(()) }
pub fn set_times(_p: &Path, _times: FileTimes) -> io::Result<()> { unsupported() }
pub fn set_times_nofollow(_p: &Path, _times: FileTimes) -> io::Result<()> { unsupported() }
pub fn rmdir(p: &Path) -> io::Result<()> { unlink(p) }
/// Removes the whole subtree below `path` (used by the harness to reset the model).
pub fn remove_dir_all(path: &Path) -> io::Result<()> {
    let mut t = FILES.lock().unwrap();
    let q = resolve(&t, path, false)?;
    t.retain(|(n, _)| !(n.len() >= q.len() && n[..q.len()] == q[..] && (n.len() == q.len() || n[q.len()] == b'/')));
    Ok(())
}
pub fn exists(p: &Path) -> io::Result<bool> {
    match stat(p) {
        Ok(_) => Ok(true),
        Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
        Err(e) => Err(e),
    }
}
pub fn readlink(p: &Path) -> io::Result<PathBuf> {
    let t = FILES.lock().unwrap();
    let q = resolve(&t, p, false)?;
    match lookup(&t, &q).map(|i| &t[i].1) {
        Some(Node::Link(b)) => Ok(to_path(b.clone())),
        Some(_) => Err(io::Error::from(io::ErrorKind::InvalidInput)),
        None => Err(nf()),
    }
}
/// `std::fs::hard_link(target, link)` in the symbolic build creates a symbolic
/// link (std offers no portable symlink constructor on this target).
pub fn link(src: &Path, dst: &Path) -> io::Result<()> { symlink(src, dst) }
pub fn symlink(original: &Path, link: &Path) -> io::Result<()> {
    let mut t = FILES.lock().unwrap();
    let q = resolve(&t, link, false)?;
    if lookup(&t, &q).is_some() { return Err(io::Error::from(io::ErrorKind::AlreadyExists)); }
    t.push((q, Node::Link(original.as_os_str().as_encoded_bytes().to_vec())));
    Ok(())
}
pub fn stat(p: &Path) -> io::Result<FileAttr> { stat_inner(p, true) }
pub fn lstat(p: &Path) -> io::Result<FileAttr> { stat_inner(p, false) }
fn stat_inner(p: &Path, follow: bool) -> io::Result<FileAttr> {
    let t = FILES.lock().unwrap();
    let q = resolve(&t, p, follow)?;
    if q == b"/" { return Ok(FileAttr { kind: 1, len: 0 }); }
    match lookup(&t, &q) { Some(i) => Ok(attr_of(&t[i].1)), None => Err(nf()) }
}
pub fn canonicalize(p: &Path) -> io::Result<PathBuf> {
    let t = FILES.lock().unwrap();
    let q = resolve(&t, p, true)?;
    if q != b"/" && lookup(&t, &q).is_none() { return Err(nf()); }
    Ok(to_path(q))
}
pub fn copy(_from: &Path, _to: &Path) -> io::Result<u64> { unsupported() }
#[allow(dead_code)]
fn _unused() -> String { String::new() }

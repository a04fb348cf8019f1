//! A file system in memory behind the C library's calls, with a clock. Every
//! call that changes it is a point where the machine may stop; a write may be
//! cut there. Nothing outside this memory is touched.
#![allow(clippy::missing_safety_doc, static_mut_refs)]
use libc::*;
use symrt::{assume, bool, choose};

#[derive(Clone, Default)]
pub struct Node { pub parent: usize, pub name: Vec<u8>, pub dir: bool, pub live: bool, pub data: Vec<u8>, pub stable: Vec<u8>, pub dirty: bool, pub cut: bool }
#[derive(Clone, Copy, Default)]
struct Fd { node: usize, pos: usize, open: bool, append: bool }
struct Stream { names: Vec<(Vec<u8>, bool)>, at: usize, fd: c_int, ent: Box<dirent64> }
pub static mut NODES: Vec<Node> = Vec::new();
static mut FDS: Vec<Fd> = Vec::new();
/// Whether the machine may stop, has stopped, and whether one read fails.
pub static mut MAY_STOP: bool = false;
pub static mut STOPPED: bool = false;
pub static mut MAY_FAIL_READ: bool = false;
pub static mut FAILED_READ: Option<usize> = None;
/// Calls made since the last reset: a loop that does not end runs out.
pub static mut CALLS: usize = 0;
pub static mut MAX_CALLS: usize = 400;
/// Milliseconds since the epoch, and how the clock moves at a look.
pub static mut NOW: u64 = 1_000_000;
pub static mut TICK: fn() = || {};
const BASE: c_int = 1000;

pub fn reset() {
    unsafe {
        NODES = vec![Node { dir: true, live: true, ..Node::default() }];
        FDS = Vec::new();
        MAY_STOP = false;
        STOPPED = false;
        MAY_FAIL_READ = false;
        FAILED_READ = None;
        CALLS = 0;
    }
}
/// The machine is up again. Without power, what was not synced is there up to
/// some place only.
pub fn restart(power_lost: bool) {
    unsafe {
        for n in NODES.iter_mut().filter(|n| n.live && !n.dir && n.dirty) {
            if power_lost && !(n.cut && n.stable.is_empty()) { // what was cut as it was written is short already
                let k = choose("lost", 0, n.data.len() as u64) as usize;
                let mut d = n.data[..k].to_vec();
                if n.stable.len() > k { d.extend_from_slice(&n.stable[k..]) }
                n.data = d;
            }
            n.stable = n.data.clone();
            n.dirty = false;
            n.cut = false;
        }
        FDS = Vec::new();
        STOPPED = false;
        MAY_STOP = false;
        CALLS = 0;
    }
}
fn err(e: c_int) -> c_int { unsafe { *__errno_location() = e } -1 }
unsafe fn call() { CALLS += 1; if CALLS > MAX_CALLS { panic!("does not end: {} file system calls", CALLS) } }
/// A change: refused once the machine has stopped, which it may do here.
unsafe fn change() -> core::primitive::bool {
    call();
    if STOPPED { return false }
    if MAY_STOP && choose("stop", 0, 1) == 1 { STOPPED = true; return false }
    true
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] { std::slice::from_raw_parts(p as *const u8, { let mut n = 0; while *p.add(n) != 0 { n += 1 } n }) }
unsafe fn child(dir: usize, name: &[u8]) -> Option<usize> { (1..NODES.len()).find(|i| { let n = &NODES[*i]; n.live && n.parent == dir && n.name == name }) }
/// (directory, last name, node)
unsafe fn walk(at: c_int, p: &[u8]) -> Result<(usize, Vec<u8>, Option<usize>), c_int> {
    let mut cur = if p.first() != Some(&b'/') && at >= BASE { FDS[(at - BASE) as usize].node } else { 0 };
    let parts: Vec<&[u8]> = p.split(|c| *c == b'/').filter(|s| !s.is_empty() && *s != b".").collect();
    if parts.is_empty() { return Ok((cur, Vec::new(), Some(cur))) }
    for s in &parts[..parts.len() - 1] {
        cur = child(cur, s).ok_or(ENOENT)?;
        if !NODES[cur].dir { return Err(ENOTDIR) }
    }
    let last = parts[parts.len() - 1];
    Ok((cur, last.to_vec(), child(cur, last)))
}
unsafe fn new_fd(f: Fd) -> c_int { FDS.push(f); BASE + FDS.len() as c_int - 1 }
unsafe fn do_open(at: c_int, p: *const c_char, flags: c_int) -> c_int {
    call();
    let (dir, name, node) = match walk(at, cstr(p)) { Ok(v) => v, Err(e) => return err(e) };
    let n = match node {
        Some(n) => {
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 { return err(EEXIST) }
            if flags & O_DIRECTORY != 0 && !NODES[n].dir { return err(ENOTDIR) }
            if NODES[n].dir && flags & O_ACCMODE != O_RDONLY { return err(EISDIR) }
            if flags & O_TRUNC != 0 {
                if !change() { return err(EIO) }
                NODES[n].data = Vec::new();
                NODES[n].stable = Vec::new();
            }
            n
        }
        None => {
            if flags & O_CREAT == 0 { return err(ENOENT) }
            if !change() { return err(EIO) }
            NODES.push(Node { parent: dir, name, live: true, ..Node::default() });
            NODES.len() - 1
        }
    };
    new_fd(Fd { node: n, pos: 0, open: true, append: flags & O_APPEND != 0 })
}
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, _mode: mode_t) -> c_int { do_open(AT_FDCWD, p, flags) }
#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, _mode: mode_t) -> c_int { do_open(AT_FDCWD, p, flags) }
#[no_mangle] pub unsafe extern "C" fn openat64(at: c_int, p: *const c_char, flags: c_int, _mode: mode_t) -> c_int { do_open(at, p, flags) }
#[no_mangle] pub unsafe extern "C" fn openat(at: c_int, p: *const c_char, flags: c_int, _mode: mode_t) -> c_int { do_open(at, p, flags) }
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int { if fd >= BASE { FDS[(fd - BASE) as usize].open = false } 0 }
unsafe fn fd_of(fd: c_int) -> Option<&'static mut Fd> { if fd < BASE || (fd - BASE) as usize >= FDS.len() { return None } let f = &mut FDS[(fd - BASE) as usize]; if f.open { Some(f) } else { None } }
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    call();
    let Some(f) = fd_of(fd) else { return err(EBADF) as ssize_t };
    let node = &NODES[f.node];
    if node.dir { return err(EISDIR) as ssize_t }
    if FAILED_READ == Some(f.node) { return err(EIO) as ssize_t }
    if MAY_FAIL_READ && FAILED_READ.is_none() && choose("read_fails", 0, 1) == 1 { FAILED_READ = Some(f.node); return err(EIO) as ssize_t }
    let k = n.min(node.data.len().saturating_sub(f.pos));
    std::ptr::copy_nonoverlapping(node.data.as_ptr().add(f.pos.min(node.data.len())), buf as *mut u8, k);
    f.pos += k;
    k as ssize_t
}
unsafe fn put(node: usize, pos: usize, b: &[u8]) {
    let n = &mut NODES[node];
    while n.data.len() < pos { n.data.push(0) }
    for (i, c) in b.iter().enumerate() { if pos + i < n.data.len() { n.data[pos + i] = *c } else { n.data.push(*c) } }
    n.dirty = true;
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd < BASE { return syscall(SYS_write, fd as c_long, buf, n) as ssize_t }
    let Some(f) = fd_of(fd) else { return err(EBADF) as ssize_t };
    let b = std::slice::from_raw_parts(buf as *const u8, n);
    if f.append { f.pos = NODES[f.node].data.len() }
    if STOPPED { return err(EIO) as ssize_t }
    if !change() {
        let k = choose("written", 0, n as u64) as usize; // cut there
        put(f.node, f.pos, &b[..k]);
        NODES[f.node].cut = true;
        return err(EIO) as ssize_t;
    }
    put(f.node, f.pos, b);
    f.pos += n;
    n as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let Some(f) = fd_of(fd) else { return err(EBADF) as off64_t };
    let base = match whence { SEEK_SET => 0, SEEK_CUR => f.pos as i64, _ => NODES[f.node].data.len() as i64 };
    if base + off < 0 { return err(EINVAL) as off64_t }
    f.pos = (base + off) as usize;
    base + off
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let Some(f) = fd_of(fd) else { return err(EBADF) };
    if !change() { return err(EIO) }
    let n = &mut NODES[f.node];
    while (n.data.len() as i64) < len { n.data.push(0) }
    n.data.truncate(len as usize);
    n.stable.truncate(len as usize);
    n.dirty = true;
    0
}
unsafe fn sync(fd: c_int) -> c_int {
    let Some(f) = fd_of(fd) else { return err(EBADF) };
    if !change() { return err(EIO) }
    let n = &mut NODES[f.node];
    n.stable = n.data.clone();
    n.dirty = false;
    0
}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { sync(fd) }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { sync(fd) }
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, _: mode_t) -> c_int {
    call();
    match walk(AT_FDCWD, cstr(p)) {
        Ok((_, _, Some(_))) => err(EEXIST),
        Ok((dir, name, None)) => { if !change() { return err(EIO) } NODES.push(Node { parent: dir, name, dir: true, live: true, ..Node::default() }); 0 }
        Err(e) => err(e),
    }
}
unsafe fn remove(at: c_int, p: *const c_char, dir: core::primitive::bool) -> c_int {
    call();
    match walk(at, cstr(p)) {
        Ok((_, _, Some(n))) => {
            if NODES[n].dir != dir { return err(if dir { ENOTDIR } else { EISDIR }) }
            if dir && (1..NODES.len()).any(|i| NODES[i].live && NODES[i].parent == n) { return err(ENOTEMPTY) }
            if !change() { return err(EIO) }
            NODES[n].live = false;
            0
        }
        Ok(_) => err(ENOENT),
        Err(e) => err(e),
    }
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int { remove(AT_FDCWD, p, false) }
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int { remove(AT_FDCWD, p, true) }
#[no_mangle] pub unsafe extern "C" fn unlinkat(at: c_int, p: *const c_char, flags: c_int) -> c_int { remove(at, p, flags & AT_REMOVEDIR != 0) }
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    call();
    let (Ok((_, _, Some(n))), Ok((dir, name, old))) = (walk(AT_FDCWD, cstr(a)), walk(AT_FDCWD, cstr(b))) else { return err(ENOENT) };
    if !change() { return err(EIO) }
    if let Some(o) = old { NODES[o].live = false }
    NODES[n].parent = dir;
    NODES[n].name = name;
    0
}
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    let fd = do_open(AT_FDCWD, p, O_DIRECTORY);
    if fd < 0 { return std::ptr::null_mut() }
    fdopendir(fd)
}
#[no_mangle] pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    let Some(f) = fd_of(fd) else { err(EBADF); return std::ptr::null_mut() };
    let mut names = vec![(b".".to_vec(), true), (b"..".to_vec(), true)];
    let rev = NODES.iter().skip(1).filter(|n| n.live && n.parent == f.node).count() > 1 && LIST_ORDER && choose("listed_backwards", 0, 1) == 1;
    let mut l: Vec<_> = (1..NODES.len()).filter(|i| NODES[*i].live && NODES[*i].parent == f.node).map(|i| (NODES[i].name.clone(), NODES[i].dir)).collect();
    if rev { l.reverse() }
    names.append(&mut l);
    Box::into_raw(Box::new(Stream { names, at: 0, fd, ent: Box::new(std::mem::zeroed()) })) as *mut DIR
}
/// Whether the order of a directory listing varies.
pub static mut LIST_ORDER: core::primitive::bool = false;
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    call();
    let s = &mut *(d as *mut Stream);
    if s.at == s.names.len() { return std::ptr::null_mut() }
    let (name, dir) = &s.names[s.at];
    s.at += 1;
    s.ent.d_ino = s.at as u64;
    s.ent.d_reclen = std::mem::size_of::<dirent64>() as u16;
    s.ent.d_type = if *dir { DT_DIR } else { DT_REG };
    for (i, c) in name.iter().enumerate() { s.ent.d_name[i] = *c as c_char }
    s.ent.d_name[name.len()] = 0;
    &mut *s.ent
}
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int { let s = Box::from_raw(d as *mut Stream); close(s.fd) }
#[no_mangle] pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int { (*(d as *mut Stream)).fd }
unsafe fn node_at(at: c_int, p: *const c_char, flags: c_int) -> Result<usize, c_int> {
    if flags & AT_EMPTY_PATH != 0 && *p == 0 { return fd_of(at).map(|f| f.node).ok_or(EBADF) }
    walk(at, cstr(p))?.2.ok_or(ENOENT)
}
#[no_mangle] pub unsafe extern "C" fn statx(at: c_int, p: *const c_char, flags: c_int, _mask: c_uint, out: *mut libc::statx) -> c_int {
    call();
    if p.is_null() || out.is_null() { return err(EFAULT) }
    match node_at(at, p, flags) {
        Ok(n) => {
            let mut s: libc::statx = std::mem::zeroed();
            s.stx_mode = if NODES[n].dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 } as u16;
            s.stx_size = NODES[n].data.len() as u64;
            s.stx_nlink = 1;
            s.stx_ino = n as u64 + 1;
            s.stx_mask = STATX_BASIC_STATS;
            *out = s;
            0
        }
        Err(e) => err(e),
    }
}
unsafe fn old_stat(n: Result<usize, c_int>, out: *mut stat64) -> c_int {
    match n {
        Ok(n) => {
            let mut s: stat64 = std::mem::zeroed();
            s.st_mode = if NODES[n].dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 };
            s.st_size = NODES[n].data.len() as i64;
            s.st_nlink = 1;
            *out = s;
            0
        }
        Err(e) => err(e),
    }
}
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut libc::stat64) -> c_int { old_stat(node_at(AT_FDCWD, p, 0), out) }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, out: *mut libc::stat64) -> c_int { old_stat(node_at(AT_FDCWD, p, 0), out) }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int { old_stat(fd_of(fd).map(|f| f.node).ok_or(EBADF), out) }
#[no_mangle] pub unsafe extern "C" fn fstatat64(at: c_int, p: *const c_char, out: *mut libc::stat64, flags: c_int) -> c_int { old_stat(node_at(at, p, flags), out) }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_: clockid_t, t: *mut timespec) -> c_int {
    call();
    TICK();
    (*t).tv_sec = (NOW / 1000) as i64;
    (*t).tv_nsec = (NOW % 1000 * 1_000_000) as i64;
    0
}

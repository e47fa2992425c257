//! The file system as the code under test sees it, with crashes, faults and a schedule at every call.
//!
//! The binary's own definitions of the C library's file functions take the place of the C library's for the standard
//! library that is linked into it. They pass everything on to the kernel, except for paths below the root of the
//! `Disk` that is mounted on the current thread.
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};
use std::ptr::null_mut;
use std::sync::{Arc, Condvar, Mutex};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}
pub const EINTR: c_int = 4;
pub const EIO: c_int = 5;
pub const EACCES: c_int = 13;
pub const EMFILE: c_int = 24;
pub const ENOSPC: c_int = 28;
pub const EROFS: c_int = 30;
const ENOSYS: c_int = 38;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    /// opened for writing
    Open,
    Write(usize),
    Sync,
    Rename,
    Link,
    Unlink,
    Truncate,
    Mkdir,
    /// calls that change nothing
    Stat,
    OpenRead,
    Read,
    List,
}
impl Op {
    pub fn changes(self) -> bool {
        !matches!(self, Op::Stat | Op::OpenRead | Op::Read | Op::List)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    /// the process ends here; of a write, so much is done
    Crash(usize),
    Fail(c_int),
    /// a write or read of fewer bytes than asked for
    Short(usize),
}
type Listing = (Vec<Vec<u64>>, Vec<Vec<u64>>);
#[derive(Default)]
pub struct Disk {
    root: Vec<u8>,
    /// all calls so far
    pub ops: Vec<Op>,
    pub plan: BTreeMap<usize, Act>,
    pub dead: bool,
    fds: BTreeSet<c_int>,
    /// what open directories still list, and what they have listed
    listings: BTreeMap<usize, Option<Listing>>,
    /// how much of the files written to is sure to survive a loss of power, by inode
    durable: BTreeMap<u64, u64>,
    pid: Option<c_int>,
    sched: Option<(Arc<Sched>, usize)>,
    /// another process schedules this one
    asks: bool,
}
thread_local! { static DISK: Cell<*mut Disk> = const { Cell::new(null_mut()) }; }

/// Runs code with the disk mounted at `root`.
pub fn mounted<T>(root: &str, disk: &mut Disk, f: impl FnOnce() -> T) -> T {
    disk.root = root.as_bytes().to_vec();
    struct Unmount;
    impl Drop for Unmount {
        fn drop(&mut self) {
            DISK.with(|d| d.set(null_mut()));
        }
    }
    DISK.with(|d| {
        assert!(d.get().is_null());
        d.set(disk)
    });
    let _u = Unmount;
    f()
}
impl Disk {
    pub fn new(plan: impl IntoIterator<Item = (usize, Act)>) -> Self {
        Disk { plan: plan.into_iter().collect(), ..Default::default() }
    }
    pub fn scheduled(sched: &Arc<Sched>, me: usize, pid: c_int) -> Self {
        Disk { sched: Some((sched.clone(), me)), pid: Some(pid), ..Default::default() }
    }
    /// A disk whose calls wait for the process that started this one.
    pub fn asking() -> Self {
        Disk { asks: true, ..Default::default() }
    }
    /// The durable length of a file.
    pub fn durable(&self, inode: u64) -> Option<u64> {
        self.durable.get(&inode).copied()
    }
}
fn disk() -> Option<&'static mut Disk> {
    let p = DISK.try_with(|d| d.get()).ok()?;
    // SAFETY: set by `mounted` for as long as the disk is borrowed there
    (!p.is_null()).then(|| unsafe { &mut *p })
}
fn fail(e: c_int) -> c_long {
    unsafe { *__errno_location() = e };
    -1
}
unsafe fn inside(path: *const c_char) -> Option<&'static mut Disk> {
    let d = disk()?;
    (!path.is_null() && CStr::from_ptr(path).to_bytes().starts_with(&d.root)).then_some(d)
}
fn of_fd(fd: c_int) -> Option<&'static mut Disk> {
    let d = disk()?;
    d.fds.contains(&fd).then_some(d)
}
/// Records a call; says what becomes of it: it is passed on, it is cut to a length, or it fails.
fn at(d: &mut Disk, op: Op) -> Result<Option<usize>, c_int> {
    if d.asks {
        let mut b = *b"t";
        unsafe {
            syscall(1, 1 as c_long, b.as_ptr(), 1 as c_long);
            syscall(0, 0 as c_long, b.as_mut_ptr(), 1 as c_long);
        }
    }
    if let Some((s, me)) = &d.sched {
        let (s, me) = (s.clone(), *me);
        s.turn(me);
    }
    let n = d.ops.len();
    d.ops.push(op);
    if d.dead {
        return if op.changes() { Err(EIO) } else { Ok(None) };
    }
    match d.plan.get(&n) {
        None => Ok(None),
        Some(Act::Fail(e)) => Err(*e),
        Some(Act::Short(k)) => match op {
            Op::Write(_) | Op::Read => Ok(Some(*k)),
            _ => Ok(None),
        },
        Some(Act::Crash(k)) => {
            d.dead = true;
            match op {
                Op::Write(n) if *k > 0 => Ok(Some((*k).min(n))),
                _ => Err(EIO),
            }
        }
    }
}
macro_rules! gate {
    ($d:expr, $op:expr) => {
        match $d {
            None => None,
            Some(d) => match at(d, $op) {
                Ok(x) => x,
                Err(e) => return fail(e) as _,
            },
        }
    };
}
fn inode(fd: c_int) -> u64 {
    let mut st = [0u64; 32];
    unsafe { syscall(5, fd as c_long, st.as_mut_ptr()) };
    st[1]
}
fn size(fd: c_int) -> u64 {
    let mut st = [0u64; 32];
    unsafe { syscall(5, fd as c_long, st.as_mut_ptr()) };
    st[6]
}
fn opened(path: *const c_char, flags: c_int, fd: c_long) {
    // SAFETY: the path was given to open
    if let (Some(d), true) = (unsafe { inside(path) }, fd >= 0) {
        d.fds.insert(fd as c_int);
        if flags & 3 != 0 {
            let len = size(fd as c_int);
            d.durable.entry(inode(fd as c_int)).and_modify(|x| *x = (*x).min(len)).or_insert(len);
        }
    }
}
const O_CREAT: c_int = 0o100;
const O_TRUNC: c_int = 0o1000;
fn open_op(flags: c_int) -> Op {
    if flags & (3 | O_CREAT | O_TRUNC) != 0 {
        Op::Open
    } else {
        Op::OpenRead
    }
}
const AT_FDCWD: c_int = -100;

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let _ = gate!(inside(path), open_op(flags));
    let fd = syscall(257, dir as c_long, path, flags as c_long, mode as c_long);
    opened(path, flags, fd);
    fd as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: c_uint) -> c_int {
    openat64(AT_FDCWD, path, O_CREAT | O_TRUNC | 1, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(d) = disk() {
        d.fds.remove(&fd);
    }
    syscall(3, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let n = gate!(of_fd(fd), Op::Write(n)).unwrap_or(n).min(n);
    syscall(1, fd as c_long, buf, n) as isize
}
#[repr(C)]
pub struct IoVec {
    base: *const c_void,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    if of_fd(fd).is_some() && n > 0 {
        // as a write of the first part that is not empty: a short write
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.len > 0 {
                return write(fd, v.base, v.len);
            }
        }
    }
    syscall(20, fd as c_long, iov, n as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let n = gate!(of_fd(fd), Op::Write(n)).unwrap_or(n).min(n);
    if let Some(d) = of_fd(fd) {
        d.durable.entry(inode(fd)).and_modify(|x| *x = (*x).min(off as u64));
    }
    syscall(18, fd as c_long, buf, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let n = gate!(of_fd(fd), Op::Read).unwrap_or(n).min(n);
    syscall(0, fd as c_long, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let _ = gate!(of_fd(fd), Op::Sync);
    // what survives is the disk's to say: nothing here depends on the machine's power
    if let Some(d) = of_fd(fd) {
        d.durable.entry(inode(fd)).and_modify(|x| *x = size(fd));
        return 0;
    }
    syscall(74, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if of_fd(fd).is_some() {
        return fsync(fd);
    }
    syscall(75, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    let _ = gate!(of_fd(fd), Op::Truncate);
    if let Some(d) = of_fd(fd) {
        d.durable.entry(inode(fd)).and_modify(|x| *x = (*x).min(len as u64));
    }
    syscall(77, fd as c_long, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: i64, len: i64) -> c_int {
    if of_fd(fd).is_some() {
        return 0;
    }
    if syscall(285, fd as c_long, 0 as c_long, off, len) < 0 {
        return *__errno_location();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    let _ = gate!(inside(to).or(inside(from)), Op::Rename);
    syscall(82, from, to) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(fd: c_int, from: *const c_char, fd2: c_int, to: *const c_char) -> c_int {
    let _ = gate!(inside(to).or(inside(from)), Op::Rename);
    syscall(264, fd as c_long, from, fd2 as c_long, to) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(fd: c_int, from: *const c_char, fd2: c_int, to: *const c_char, flags: c_uint) -> c_int {
    let _ = gate!(inside(to).or(inside(from)), Op::Rename);
    syscall(316, fd as c_long, from, fd2 as c_long, to, flags as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(from: *const c_char, to: *const c_char) -> c_int {
    let _ = gate!(inside(to), Op::Link);
    syscall(86, from, to) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(fd: c_int, from: *const c_char, fd2: c_int, to: *const c_char, flags: c_int) -> c_int {
    let _ = gate!(inside(to), Op::Link);
    syscall(265, fd as c_long, from, fd2 as c_long, to, flags as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(from: *const c_char, to: *const c_char) -> c_int {
    let _ = gate!(inside(to), Op::Link);
    syscall(88, from, to) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let _ = gate!(inside(path), Op::Unlink);
    syscall(87, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, path: *const c_char, flags: c_int) -> c_int {
    let _ = gate!(inside(path).or(of_fd(fd)), Op::Unlink);
    syscall(263, fd as c_long, path, flags as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    let _ = gate!(inside(path), Op::Unlink);
    syscall(84, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    let _ = gate!(inside(path), Op::Mkdir);
    syscall(83, path, mode as c_long) as c_int
}
/// Copying inside the kernel is not offered: the standard library then copies with reads and writes.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, flags: c_uint) -> isize {
    if of_fd(a).or(of_fd(b)).is_some() {
        return fail(ENOSYS) as isize;
    }
    syscall(326, a as c_long, ao, b as c_long, bo, n, flags as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(out: c_int, inp: c_int, off: *mut i64, n: usize) -> isize {
    if of_fd(out).or(of_fd(inp)).is_some() {
        return fail(ENOSYS) as isize;
    }
    syscall(40, out as c_long, inp as c_long, off, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    let _ = gate!(inside(path), Op::Stat);
    syscall(332, dir as c_long, path, flags as c_long, mask as c_long, buf) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    let _ = gate!(inside(path), Op::Stat);
    syscall(21, path, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    if let Some(d) = inside(path) {
        if let Err(e) = at(d, Op::List) {
            fail(e);
            return null_mut();
        }
    }
    // RTLD_NEXT
    let real: extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(dlsym(-1isize as *mut c_void, c"opendir".as_ptr()));
    let dir = real(path);
    if let (Some(d), false) = (inside(path), dir.is_null()) {
        d.listings.insert(dir as usize, None);
    }
    dir
}
/// Entries come in the order of their names: the file system's own order depends on more than the names' order.
#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut c_void) -> *mut c_void {
    let real: extern "C" fn(*mut c_void) -> *mut c_void = std::mem::transmute(dlsym(-1isize as *mut c_void, c"readdir64".as_ptr()));
    let Some(d) = disk() else { return real(dir) };
    if let Err(e) = at(d, Op::List) {
        fail(e);
        return null_mut();
    }
    let Some(list) = d.listings.get_mut(&(dir as usize)) else { return real(dir) };
    let list = list.get_or_insert_with(|| {
        let mut all: Vec<(usize, Vec<u8>, Vec<u64>)> = vec![];
        loop {
            let e = real(dir) as *const u8;
            if e.is_null() {
                break;
            }
            // inode, offset, length of the record, type, name
            let len = *(e.add(16) as *const u16) as usize;
            let name = CStr::from_ptr(e.add(19) as *const c_char).to_bytes().to_vec();
            let mut copy = vec![0u64; len.div_ceil(8)];
            std::ptr::copy_nonoverlapping(e, copy.as_mut_ptr() as *mut u8, len);
            all.push((name.len(), name, copy));
        }
        all.sort();
        all.reverse();
        (all.into_iter().map(|(_, _, e)| e).collect(), vec![])
    });
    match list.0.pop() {
        // kept for as long as the disk
        Some(e) => {
            list.1.push(e);
            list.1.last_mut().unwrap().as_mut_ptr() as *mut c_void
        }
        None => null_mut(),
    }
}
#[no_mangle]
pub extern "C" fn getpid() -> c_int {
    match disk() {
        Some(Disk { pid: Some(p), .. }) => *p,
        _ => unsafe { syscall(39) as c_int },
    }
}

/// Lets one of several threads go on at a time, from one call to the file system to the next.
#[derive(Default)]
pub struct Sched {
    state: Mutex<Turns>,
    changed: Condvar,
}
#[derive(Default)]
struct Turns {
    waiting: BTreeSet<usize>,
    running: usize,
    granted: Option<usize>,
}
impl Sched {
    pub fn turn(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.waiting.insert(me);
        s.running -= 1;
        self.changed.notify_all();
        while s.granted != Some(me) {
            s = self.changed.wait(s).unwrap();
        }
        s.granted = None;
        s.waiting.remove(&me);
        s.running += 1;
    }
    /// Runs the threads; whenever all of them wait, `choose` picks one of them.
    pub fn run(self: &Arc<Self>, threads: Vec<Box<dyn FnOnce() + Send + '_>>, mut choose: impl FnMut(&[usize]) -> usize) {
        let n = threads.len();
        self.state.lock().unwrap().running = n;
        std::thread::scope(|scope| {
            for t in threads {
                let me = self.clone();
                scope.spawn(move || {
                    struct Done(Arc<Sched>);
                    impl Drop for Done {
                        fn drop(&mut self) {
                            self.0.state.lock().unwrap().running -= 1;
                            self.0.changed.notify_all();
                        }
                    }
                    let _d = Done(me);
                    t()
                });
            }
            loop {
                let mut s = self.state.lock().unwrap();
                while s.running > 0 || s.granted.is_some() {
                    s = self.changed.wait(s).unwrap();
                }
                let w: Vec<usize> = s.waiting.iter().copied().collect();
                if w.is_empty() {
                    break;
                }
                s.granted = Some(choose(&w));
                self.changed.notify_all();
            }
        });
    }
}
/// Every schedule of `threads` threads with at most `bound` preemptions; `run` is given what picks the next thread.
pub fn schedules(bound: usize, mut run: impl FnMut(&mut dyn FnMut(&[usize]) -> usize)) -> u64 {
    // the choices made so far, each with the alternatives that are left
    let mut path: Vec<(usize, Vec<usize>)> = vec![];
    let mut count = 0;
    loop {
        let mut step = 0;
        let mut last: Option<usize> = None;
        let mut used = 0;
        run(&mut |waiting: &[usize]| {
            let preempts = |c: usize| last.is_some_and(|l| l != c && waiting.contains(&l)) as usize;
            if step == path.len() {
                let mut options: Vec<usize> = waiting.iter().copied().filter(|c| used + preempts(*c) <= bound).collect();
                // the running thread goes on by default
                if let Some(i) = options.iter().position(|c| Some(*c) == last) {
                    options.swap(0, i);
                }
                if options.is_empty() {
                    options = vec![waiting[0]];
                }
                let first = options.remove(0);
                path.push((first, options));
            }
            if !waiting.contains(&path[step].0) {
                // the code under test did not do the same again: what follows is a schedule of its own
                path.truncate(step);
                path.push((waiting[0], vec![]));
            }
            let c = path[step].0;
            used += preempts(c);
            last = Some(c);
            step += 1;
            c
        });
        count += 1;
        path.truncate(step);
        loop {
            match path.pop() {
                None => return count,
                Some((_, mut rest)) => {
                    if !rest.is_empty() {
                        let next = rest.remove(0);
                        path.push((next, rest));
                        break;
                    }
                }
            }
        }
    }
}

//! System-call interposition.  The symbols below override libc's for the whole
//! harness binary; a thread that is not a simulated process falls through to
//! the kernel by raw system calls.
#![allow(clippy::missing_safety_doc)]
use super::tape::Prng;
use super::vfs::{base, normalise, parent, Inode, Node};
use super::*;
use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

// ---- argv ------------------------------------------------------------------
static ARGV: AtomicPtr<*const c_char> = AtomicPtr::new(std::ptr::null_mut());
static ARGC: AtomicUsize = AtomicUsize::new(0);

#[used]
#[link_section = ".init_array.00001"]
static CAPTURE_ARGV: extern "C" fn(c_int, *mut *const c_char, *mut *const c_char) = {
    extern "C" fn f(argc: c_int, argv: *mut *const c_char, _e: *mut *const c_char) {
        ARGC.store(argc as usize, Ordering::Relaxed);
        ARGV.store(argv, Ordering::Relaxed);
    }
    f
};

/// Room for simulated argument vectors.
pub fn argv_capacity() -> usize {
    ARGC.load(Ordering::Relaxed)
}

pub fn set_argv(args: &[CString]) {
    let p = ARGV.load(Ordering::Relaxed);
    let cap = argv_capacity();
    if p.is_null() || args.len() > cap {
        if args.is_empty() {
            return;
        }
        eprintln!("HARNESS: argv capacity {} too small for {}", cap, args.len());
        unsafe { libc::_exit(2) };
    }
    unsafe {
        for (i, a) in args.iter().enumerate() {
            *p.add(i) = a.as_ptr();
        }
        for i in args.len()..cap {
            *p.add(i) = std::ptr::null();
        }
    }
}

// ---- the one gate every operation passes -----------------------------------

fn errno_set(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

enum Gate {
    Go,
    Torn(u32),
    After,
}

fn switch_point(mut gd: Guard, p: usize) -> Guard {
    let next = {
        let w = gd.as_mut().unwrap();
        let k = w.running.len();
        if k > 1 && w.chance(S::Sched, w.benign.preempt, 16) {
            let others: Vec<usize> = w.running.iter().cloned().filter(|&x| x != p).collect();
            let j = if others.len() > 1 { w.draw(S::Sched, others.len() as u64) as usize } else { 0 };
            Some(others[j])
        } else {
            None
        }
    };
    if let Some(nx) = next {
        let wake;
        {
            let w = gd.as_mut().unwrap();
            w.switches += 1;
            let total = w.procs[p].total as u64;
            w.sched_hash = (w.sched_hash ^ (nx as u64) ^ (total << 8)).wrapping_mul(0x100_0000_01b3);
            w.note(|| format!("-- switch from p{} to p{}", p, nx));
            w.set_cur(nx);
            w.procs[nx].wake.notify_all();
            wake = w.procs[p].wake.clone();
        }
        while gd.as_ref().unwrap().cur != p {
            gd = wake.wait(gd).unwrap_or_else(|e| e.into_inner());
        }
    }
    gd
}

fn gate(p: usize, class: Class, what: &dyn Fn() -> String) -> Result<(Guard, Gate), i32> {
    let gd = lock();
    let mut gd = switch_point(gd, p);
    let w = gd.as_mut().unwrap();
    if w.procs[p].crashed {
        w.ops += 1;
        if w.ops > w.budget {
            w.exhausted = true;
        }
        return Err(libc::EIO);
    }
    w.ops += 1;
    if w.ops > w.budget {
        w.exhausted = true;
        return Err(libc::EIO);
    }
    // time passes
    let mut dt = w.benign.tick;
    if w.benign.jump > 0 && w.chance(S::Io, w.benign.jump, 64) {
        let jumps: [i64; 4] = [3_600_000_000_000, -1_800_000_000_000, 86_400_000_000_000, -90_000_000_000_000];
        let j = jumps[w.draw(S::Io, 4) as usize];
        w.count("clock jump", 1);
        w.note(|| format!("   clock jumps by {} s", j / 1_000_000_000));
        w.now += j;
        dt += j.abs();
    } else {
        w.now += dt;
    }
    w.mono += dt;
    w.simulated += dt;

    let nth_class = w.procs[p].ops[class as usize];
    let nth_total = w.procs[p].total;
    w.procs[p].ops[class as usize] += 1;
    w.procs[p].total += 1;
    w.mix(((p as u64) << 8) | class as u64);

    // recoverable interruptions
    if matches!(class, Class::Read | Class::Write | Class::OpenR | Class::OpenW)
        && w.benign.eintr > 0
        && w.chance(S::Io, w.benign.eintr, 16)
    {
        w.count("EINTR", 1);
        w.note(|| format!("p{} {} -> EINTR", p, what()));
        w.mix(4);
        return Err(libc::EINTR);
    }
    // planned faults
    let mut hit: Option<FaultKind> = None;
    for ft in &w.procs[p].faults {
        if let FaultKind::WriteTo(..) = ft.kind {
            continue; // see do_write
        }
        let n = match ft.class {
            Some(c) if c == class => nth_class,
            Some(_) => continue,
            None => {
                if class == Class::Yield {
                    continue;
                }
                nth_total
            }
        };
        if n == ft.nth || (ft.sticky && n > ft.nth) {
            hit = Some(ft.kind);
            break;
        }
    }
    let gate = match hit {
        None => Gate::Go,
        Some(FaultKind::Errno(e)) => {
            let s = format!("{} errno {}", CLASS_NAMES[class as usize], e);
            w.count(&format!("fault {} {}", CLASS_NAMES[class as usize], errno_name(e)), 1);
            w.procs[p].fired.push(s);
            w.note(|| format!("p{} {} -> FAULT {}", p, what(), errno_name(e)));
            w.mix(e as u64);
            return Err(e);
        }
        Some(FaultKind::CrashBefore) => {
            w.count(&format!("crash before {}", CLASS_NAMES[class as usize]), 1);
            w.procs[p].fired.push("crash".into());
            w.procs[p].crashed = true;
            w.note(|| format!("p{} CRASH before {}", p, what()));
            w.mix(77);
            return Err(libc::EIO);
        }
        Some(FaultKind::CrashTorn(k)) if class == Class::Write => Gate::Torn(k),
        Some(_) => Gate::After,
    };
    Ok((gd, gate))
}

fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::EACCES => "EACCES",
        libc::ENOSPC => "ENOSPC",
        libc::EMFILE => "EMFILE",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::ENOMEM => "ENOMEM",
        libc::EINTR => "EINTR",
        libc::ENOENT => "ENOENT",
        libc::EEXIST => "EEXIST",
        _ => "errno",
    }
}

/// An operation of simulated process `p`.  Leaves errno as it found it.
pub fn op<R>(
    p: usize,
    class: Class,
    what: impl Fn() -> String,
    f: impl FnOnce(&mut World, usize) -> Result<R, i32>,
) -> Result<R, i32> {
    let errno = unsafe { *libc::__errno_location() };
    let r = op_inner(p, class, what, f);
    errno_set(errno);
    r
}

fn op_inner<R>(
    p: usize,
    class: Class,
    what: impl Fn() -> String,
    f: impl FnOnce(&mut World, usize) -> Result<R, i32>,
) -> Result<R, i32> {
    let (mut gd, gt) = gate(p, class, &what)?;
    let w = gd.as_mut().unwrap();
    let r = f(w, p);
    if w.trace.is_some() && class != Class::Yield {
        let res = match &r {
            Ok(_) => "ok".to_string(),
            Err(e) => format!("{} ({})", errno_name(*e), e),
        };
        w.note(|| format!("p{} {} -> {}", p, what(), res));
    }
    w.mix(match &r {
        Ok(_) => 1,
        Err(e) => 1000 + *e as u64,
    });
    if !matches!(gt, Gate::Go) {
        w.count(&format!("crash after {}", CLASS_NAMES[class as usize]), 1);
        w.procs[p].fired.push("crash".into());
        w.procs[p].crashed = true;
        w.note(|| format!("p{} CRASH after {}", p, what()));
        return Err(libc::EIO);
    }
    r
}

fn cint(r: Result<c_int, i32>) -> c_int {
    match r {
        Ok(v) => v,
        Err(e) => {
            errno_set(e);
            -1
        }
    }
}

unsafe fn path_of(w: &mut World, dirfd: c_int, p: *const c_char) -> Result<String, i32> {
    let full = name_of(w, dirfd, p)?;
    let full = w.vfs.resolve(&full, true)?;
    within(w, full)
}
/// The same without following a link that the path itself names.
unsafe fn entry_of(w: &mut World, dirfd: c_int, p: *const c_char) -> Result<String, i32> {
    let full = name_of(w, dirfd, p)?;
    let full = w.vfs.resolve(&full, false)?;
    within(w, full)
}
unsafe fn name_of(w: &mut World, dirfd: c_int, p: *const c_char) -> Result<String, i32> {
    if p.is_null() {
        return Err(libc::EFAULT);
    }
    let s = super::vfs::decode(CStr::from_ptr(p).to_bytes());
    let s = s.as_str();
    if s.is_empty() {
        return Err(libc::ENOENT);
    }
    let cwd = if dirfd == libc::AT_FDCWD {
        CWD.to_string()
    } else {
        match w.files.get(&dirfd) {
            Some(f) => f.path.clone(),
            None => return Err(libc::EBADF),
        }
    };
    let mut full = normalise(&cwd, s);
    if full == "/tmp" || full.starts_with("/tmp/") {
        full = format!("{}{}", ROOT, full);
    }
    if ["/etc/", "/usr/", "/proc/", "/sys/"].iter().any(|d| full.starts_with(d)) {
        return Err(libc::ENOENT); // a bare machine
    }
    Ok(full)
}
fn within(w: &mut World, full: String) -> Result<String, i32> {
    if full != ROOT && !full.starts_with("/simfs/") {
        w.count("path outside the simulated tree", 1);
        if w.escapes.len() < 10 {
            w.escapes.push(full);
        }
        return Err(libc::EACCES);
    }
    if full.len() >= 4096 || full.split('/').any(|c| c.len() > 255) {
        return Err(libc::ENAMETOOLONG);
    }
    Ok(full)
}
unsafe fn show(p: *const c_char) -> String {
    if p.is_null() {
        return "null".into();
    }
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

macro_rules! raw {
    ($n:expr $(, $a:expr)*) => { libc::syscall($n $(, $a)*) };
}

// ---- open / close ----------------------------------------------------------

unsafe fn do_open(p: usize, dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    let writing = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0;
    let class = if writing { Class::OpenW } else { Class::OpenR };
    cint(op(
        p,
        class,
        || format!("open({}, {}{}{}{})", show(path),
            if writing { "write" } else { "read" },
            if flags & libc::O_CREAT != 0 { "|create" } else { "" },
            if flags & libc::O_EXCL != 0 { "|excl" } else { "" },
            if flags & libc::O_TRUNC != 0 { "|trunc" } else { "" }),
        |w, p| {
            let excl = flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0;
            let full = if excl || flags & libc::O_NOFOLLOW != 0 { entry_of(w, dirfd, path)? } else { path_of(w, dirfd, path)? };
            w.mix_str(&full);
            let inode = match w.vfs.get(&full).cloned() {
                Some(Node::Link(_)) => return Err(if excl { libc::EEXIST } else { libc::ELOOP }),
                Some(Node::Dir) => {
                    if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                        return Err(libc::EEXIST);
                    }
                    if writing {
                        return Err(libc::EISDIR);
                    }
                    None
                }
                Some(Node::File(i)) => {
                    if flags & libc::O_DIRECTORY != 0 {
                        return Err(libc::ENOTDIR);
                    }
                    if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                        return Err(libc::EEXIST);
                    }
                    if flags & libc::O_TRUNC != 0 {
                        let now = w.now;
                        let ino = &mut w.vfs.inodes[i];
                        ino.mtime = now;
                        ino.data.clear();
                        ino.writers |= 1u128 << (p & 127);
                    }
                    Some(i)
                }
                None => {
                    w.vfs.check_parent(&full)?;
                    if flags & libc::O_CREAT == 0 {
                        return Err(libc::ENOENT);
                    }
                    let i = w.vfs.inodes.len();
                    w.vfs.inodes.push(Inode { data: vec![], writers: 1u128 << (p & 127), mtime: w.now });
                    w.vfs.nodes.insert(full.clone(), Node::File(i));
                    Some(i)
                }
            };
            let acc = flags & libc::O_ACCMODE;
            let fd = w.next_fd;
            w.next_fd += 1;
            w.files.insert(
                fd,
                OpenFile {
                    inode,
                    path: full,
                    pos: 0,
                    append: flags & libc::O_APPEND != 0,
                    r: acc != libc::O_WRONLY,
                    w: acc != libc::O_RDONLY,
                },
            );
            Ok(fd)
        },
    ))
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match me() {
        Some(p) => do_open(p, libc::AT_FDCWD, path, flags),
        None => raw!(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match me() {
        Some(p) => do_open(p, dirfd, path, flags),
        None => raw!(libc::SYS_openat, dirfd, path, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int {
    open64(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    creat64(path, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD0 {
        let mut gd = lock();
        if let Some(w) = gd.as_mut() {
            w.files.remove(&fd);
        }
        return 0;
    }
    if me().is_some() {
        return 0;
    }
    raw!(libc::SYS_close, fd) as c_int
}

// ---- read ------------------------------------------------------------------

unsafe fn do_read(p: usize, fd: c_int, buf: *mut u8, n: usize, at: Option<u64>) -> ssize_t {
    let r = op(
        p,
        Class::Read,
        || format!("read(fd {}, {})", fd - FD0, n),
        |w, _| {
            let f = w.files.get(&fd).ok_or(libc::EBADF)?;
            if !f.r {
                return Err(libc::EBADF);
            }
            let i = f.inode.ok_or(libc::EISDIR)?;
            let pos = at.unwrap_or(f.pos) as usize;
            let avail = w.vfs.inodes[i].data.len().saturating_sub(pos);
            let mut k = n.min(avail);
            if k > 1 && w.chance(S::Io, w.benign.short_read, 16) {
                let m = match w.draw(S::Io, 3) {
                    0 => 1,
                    1 => k - 1,
                    _ => 1 + w.draw(S::Io, k as u64 - 1) as usize,
                };
                w.count("short read", 1);
                k = m;
            }
            std::ptr::copy_nonoverlapping(w.vfs.inodes[i].data.as_ptr().add(pos.min(w.vfs.inodes[i].data.len())), buf, k);
            if at.is_none() {
                w.files.get_mut(&fd).unwrap().pos = (pos + k) as u64;
            }
            w.mix(k as u64);
            Ok(k as ssize_t)
        },
    );
    match r {
        Ok(v) => v,
        Err(e) => {
            errno_set(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match me() {
        Some(p) if fd >= FD0 => do_read(p, fd, buf as *mut u8, n, None),
        Some(_) => 0,
        None => raw!(libc::SYS_read, fd, buf, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match me() {
        Some(p) => do_read(p, fd, buf as *mut u8, n, Some(off as u64)),
        None => raw!(libc::SYS_pread64, fd, buf, n, off) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    match me() {
        Some(p) => {
            for i in 0..n as usize {
                let v = &*iov.add(i);
                if v.iov_len > 0 {
                    return do_read(p, fd, v.iov_base as *mut u8, v.iov_len, None);
                }
            }
            0
        }
        None => raw!(libc::SYS_readv, fd, iov, n) as ssize_t,
    }
}

// ---- write -----------------------------------------------------------------

fn put_bytes(w: &mut World, p: usize, i: usize, pos: usize, data: &[u8]) {
    let now = w.now;
    let ino = &mut w.vfs.inodes[i];
    ino.mtime = now;
    if ino.data.len() < pos {
        ino.data.resize(pos, 0);
    }
    let over = (ino.data.len() - pos).min(data.len());
    ino.data[pos..pos + over].copy_from_slice(&data[..over]);
    ino.data.extend_from_slice(&data[over..]);
    ino.writers |= 1u128 << (p & 127);
}

fn do_write(p: usize, fd: c_int, data: &[u8], at: Option<u64>) -> ssize_t {
    let what = || format!("write(fd {}, {} bytes)", fd - FD0, data.len());
    let r = (|| -> Result<ssize_t, i32> {
        let (mut gd, gt) = gate(p, Class::Write, &what)?;
        let w = gd.as_mut().unwrap();
        let f = w.files.get(&fd).ok_or(libc::EBADF)?;
        if !f.w {
            return Err(libc::EBADF);
        }
        let i = f.inode.ok_or(libc::EISDIR)?;
        let named = w.procs[p].faults.iter().find_map(|ft| match ft.kind {
            FaultKind::WriteTo(part, e) if f.path.contains(part) => Some((ft.nth, ft.sticky, e)),
            _ => None,
        });
        if let Some((nth, sticky, e)) = named {
            let n = w.procs[p].writes_to;
            w.procs[p].writes_to += 1;
            if n == nth || (sticky && n > nth) {
                w.count(&format!("fault write {}", errno_name(e)), 1);
                w.procs[p].fired.push(format!("write errno {}", e));
                w.note(|| format!("p{} {} -> FAULT {}", p, what(), errno_name(e)));
                w.mix(e as u64);
                return Err(e);
            }
        }
        let f = w.files.get(&fd).ok_or(libc::EBADF)?;
        let append = f.append;
        let pos = if append { w.vfs.inodes[i].data.len() } else { at.unwrap_or(f.pos) as usize };
        let mut k = data.len();
        if let Gate::Torn(pm) = gt {
            k = (k as u64 * pm as u64 / 1000) as usize;
            put_bytes(w, p, i, pos, &data[..k]);
            w.count("crash tearing a write", 1);
            w.procs[p].fired.push("crash".into());
            w.procs[p].crashed = true;
            w.note(|| format!("p{} CRASH inside {} after {} bytes", p, what(), k));
            w.mix(k as u64);
            return Err(libc::EIO);
        }
        if let Some(c) = w.vfs.capacity {
            if c == 0 && k > 0 {
                w.count("fault write ENOSPC (disk full)", 1);
                w.procs[p].fired.push("disk full".into());
                w.note(|| format!("p{} {} -> disk full", p, what()));
                return Err(libc::ENOSPC);
            }
            if (k as u64) > c {
                k = c as usize;
                w.count("short write (disk filling up)", 1);
            }
        }
        if k > 1 && w.chance(S::Io, w.benign.short_write, 16) {
            k = match w.draw(S::Io, 3) {
                0 => 1,
                1 => k - 1,
                _ => 1 + w.draw(S::Io, k as u64 - 1) as usize,
            };
            w.count("short write", 1);
        }
        put_bytes(w, p, i, pos, &data[..k]);
        if let Some(c) = &mut w.vfs.capacity {
            *c -= k as u64;
        }
        if at.is_none() {
            w.files.get_mut(&fd).unwrap().pos = (pos + k) as u64;
        }
        w.note(|| format!("p{} {} -> {}", p, what(), k));
        w.mix(k as u64 + 7);
        if let Gate::After = gt {
            w.count("crash after write", 1);
            w.procs[p].fired.push("crash".into());
            w.procs[p].crashed = true;
            w.note(|| format!("p{} CRASH after {}", p, what()));
            return Err(libc::EIO);
        }
        Ok(k as ssize_t)
    })();
    match r {
        Ok(v) => v,
        Err(e) => {
            errno_set(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match me() {
        Some(p) if fd >= FD0 => {
            if n == 0 {
                return 0;
            }
            do_write(p, fd, std::slice::from_raw_parts(buf as *const u8, n), None)
        }
        Some(_) => n as ssize_t, // the console of the simulated machine
        None => raw!(libc::SYS_write, fd, buf, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    match me() {
        Some(p) => do_write(p, fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as u64)),
        None => raw!(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    match me() {
        Some(p) => {
            let mut all = vec![];
            for i in 0..n as usize {
                let v = &*iov.add(i);
                if v.iov_len > 0 {
                    all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
                }
            }
            if fd < FD0 || all.is_empty() {
                return all.len() as ssize_t;
            }
            do_write(p, fd, &all, None)
        }
        None => raw!(libc::SYS_writev, fd, iov, n) as ssize_t,
    }
}

// ---- seek, size ------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    match me() {
        Some(p) => {
            let r = op(p, Class::Other, || "lseek".into(), |w, _| {
                let (len, cur) = {
                    let f = w.files.get(&fd).ok_or(libc::EBADF)?;
                    (f.inode.map_or(0, |i| w.vfs.inodes[i].data.len()) as i64, f.pos as i64)
                };
                let np = match whence {
                    libc::SEEK_SET => off,
                    libc::SEEK_CUR => cur + off,
                    libc::SEEK_END => len + off,
                    _ => return Err(libc::EINVAL),
                };
                if np < 0 {
                    return Err(libc::EINVAL);
                }
                w.files.get_mut(&fd).unwrap().pos = np as u64;
                Ok(np)
            });
            match r {
                Ok(v) => v,
                Err(e) => {
                    errno_set(e);
                    -1
                }
            }
        }
        None => raw!(libc::SYS_lseek, fd, off, whence) as off64_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    match me() {
        Some(p) => cint(op(p, Class::Write, || format!("ftruncate({})", len), |w, p| {
            let i = w.files.get(&fd).and_then(|f| f.inode).ok_or(libc::EBADF)?;
            w.vfs.inodes[i].data.resize(len as usize, 0);
            w.vfs.inodes[i].mtime = w.now;
            w.vfs.inodes[i].writers |= 1u128 << (p & 127);
            Ok(0)
        })),
        None => raw!(libc::SYS_ftruncate, fd, len) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}

fn stat_node(w: &World, full: &str) -> Result<(u32, u64, u64, i64), i32> {
    match w.vfs.get(full) {
        Some(Node::Link(t)) => Ok((libc::S_IFLNK | 0o777, t.len() as u64, 2, 0)),
        Some(Node::Dir) => Ok((libc::S_IFDIR | 0o755, 4096, 1, w.now)),
        Some(Node::File(i)) => Ok((libc::S_IFREG | 0o644, w.vfs.inodes[*i].data.len() as u64, 1000 + *i as u64, w.vfs.inodes[*i].mtime)),
        None => {
            w.vfs.check_parent(full)?;
            Err(libc::ENOENT)
        }
    }
}
unsafe fn stat_any(p: usize, dirfd: c_int, path: *const c_char, flags: c_int) -> Result<(u32, u64, u64, i64), i32> {
    let empty = path.is_null() || *path == 0;
    op(
        p,
        Class::Stat,
        || if empty { format!("fstat(fd {})", dirfd - FD0) } else { format!("stat({})", show(path)) },
        |w, _| {
            if empty {
                if flags & libc::AT_EMPTY_PATH == 0 {
                    return Err(libc::ENOENT);
                }
                let f = w.files.get(&dirfd).ok_or(libc::EBADF)?;
                return match f.inode {
                    Some(i) => Ok((libc::S_IFREG | 0o644, w.vfs.inodes[i].data.len() as u64, 1000 + i as u64, w.vfs.inodes[i].mtime)),
                    None => Ok((libc::S_IFDIR | 0o755, 4096, 1, w.now)),
                };
            }
            let full = if flags & libc::AT_SYMLINK_NOFOLLOW != 0 { entry_of(w, dirfd, path)? } else { path_of(w, dirfd, path)? };
            w.mix_str(&full);
            stat_node(w, &full)
        },
    )
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut libc::statx) -> c_int {
    match me() {
        Some(p) => match stat_any(p, dirfd, path, flags) {
            Ok((mode, size, ino, t)) => {
                std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*buf).stx_mask = libc::STATX_BASIC_STATS;
                (*buf).stx_blksize = 4096;
                (*buf).stx_nlink = 1;
                (*buf).stx_mode = mode as u16;
                (*buf).stx_size = size;
                (*buf).stx_ino = ino;
                let ts = &mut (*buf).stx_mtime;
                ts.tv_sec = t.div_euclid(1_000_000_000);
                ts.tv_nsec = t.rem_euclid(1_000_000_000) as u32;
                (*buf).stx_ctime = (*buf).stx_mtime;
                (*buf).stx_atime = (*buf).stx_mtime;
                (*buf).stx_btime = (*buf).stx_mtime;
                (*buf).stx_mask |= libc::STATX_BTIME;
                0
            }
            Err(e) => {
                errno_set(e);
                -1
            }
        },
        None => raw!(libc::SYS_statx, dirfd, path, flags, mask, buf) as c_int,
    }
}
unsafe fn fill_stat(r: Result<(u32, u64, u64, i64), i32>, buf: *mut libc::stat64) -> c_int {
    match r {
        Ok((mode, size, ino, t)) => {
            std::ptr::write_bytes(buf as *mut u8, 0, std::mem::size_of::<libc::stat64>());
            (*buf).st_mode = mode;
            (*buf).st_size = size as i64;
            (*buf).st_ino = ino;
            (*buf).st_mtime = t.div_euclid(1_000_000_000);
            (*buf).st_mtime_nsec = t.rem_euclid(1_000_000_000);
            (*buf).st_ctime = (*buf).st_mtime;
            (*buf).st_atime = (*buf).st_mtime;
            (*buf).st_nlink = 1;
            (*buf).st_blksize = 4096;
            0
        }
        Err(e) => {
            errno_set(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dirfd: c_int, path: *const c_char, buf: *mut libc::stat64, flags: c_int) -> c_int {
    match me() {
        Some(p) => fill_stat(stat_any(p, dirfd, path, flags), buf),
        None => raw!(libc::SYS_newfstatat, dirfd, path, buf, flags) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(dirfd: c_int, path: *const c_char, buf: *mut libc::stat64, flags: c_int) -> c_int {
    fstatat64(dirfd, path, buf, flags)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    fstatat64(libc::AT_FDCWD, path, buf, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    fstatat64(libc::AT_FDCWD, path, buf, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    fstatat64(libc::AT_FDCWD, path, buf, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, buf: *mut libc::stat64) -> c_int {
    lstat64(path, buf)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat64) -> c_int {
    match me() {
        Some(p) if fd >= FD0 => fill_stat(stat_any(p, fd, std::ptr::null(), libc::AT_EMPTY_PATH), buf),
        _ => raw!(libc::SYS_fstat, fd, buf) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, buf: *mut libc::stat64) -> c_int {
    fstat64(fd, buf)
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    match me() {
        Some(p) => cint(stat_any(p, libc::AT_FDCWD, path, 0).map(|_| 0)),
        None => raw!(libc::SYS_access, path, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(dirfd: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    match me() {
        Some(p) => cint(stat_any(p, dirfd, path, 0).map(|_| 0)),
        None => raw!(libc::SYS_faccessat, dirfd, path, mode, flags) as c_int,
    }
}

// ---- directories -----------------------------------------------------------

unsafe fn do_mkdir(p: usize, dirfd: c_int, path: *const c_char) -> c_int {
    cint(op(p, Class::Mkdir, || format!("mkdir({})", show(path)), |w, _| {
        let full = entry_of(w, dirfd, path)?;
        w.mix_str(&full);
        if w.vfs.get(&full).is_some() {
            return Err(libc::EEXIST);
        }
        w.vfs.check_parent(&full)?;
        w.vfs.nodes.insert(full, Node::Dir);
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    match me() {
        Some(p) => do_mkdir(p, libc::AT_FDCWD, path),
        None => raw!(libc::SYS_mkdir, path, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(dirfd: c_int, path: *const c_char, mode: mode_t) -> c_int {
    match me() {
        Some(p) => do_mkdir(p, dirfd, path),
        None => raw!(libc::SYS_mkdirat, dirfd, path, mode) as c_int,
    }
}
unsafe fn do_unlink(p: usize, dirfd: c_int, path: *const c_char, dir: bool) -> c_int {
    cint(op(p, Class::Other, || format!("{}({})", if dir { "rmdir" } else { "unlink" }, show(path)), |w, _| {
        let full = entry_of(w, dirfd, path)?;
        match w.vfs.get(&full) {
            None => return Err(libc::ENOENT),
            Some(Node::Dir) if !dir => return Err(libc::EISDIR),
            Some(Node::File(_)) | Some(Node::Link(_)) if dir => return Err(libc::ENOTDIR),
            Some(Node::Dir) if !w.vfs.children(&full).is_empty() => return Err(libc::ENOTEMPTY),
            _ => {}
        }
        w.vfs.nodes.remove(&full);
        Ok(0)
    }))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    match me() {
        Some(p) => do_unlink(p, libc::AT_FDCWD, path, false),
        None => raw!(libc::SYS_unlink, path) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    match me() {
        Some(p) => do_unlink(p, libc::AT_FDCWD, path, true),
        None => raw!(libc::SYS_rmdir, path) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    match me() {
        Some(p) => do_unlink(p, dirfd, path, flags & libc::AT_REMOVEDIR != 0),
        None => raw!(libc::SYS_unlinkat, dirfd, path, flags) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match me() {
        Some(p) => cint(op(p, Class::Other, || format!("rename({}, {})", show(a), show(b)), |w, _| {
            let from = entry_of(w, libc::AT_FDCWD, a)?;
            let to = entry_of(w, libc::AT_FDCWD, b)?;
            let n = w.vfs.get(&from).cloned().ok_or(libc::ENOENT)?;
            w.vfs.check_parent(&to)?;
            if from == to {
                return Ok(0);
            }
            match (&n, w.vfs.get(&to)) {
                (Node::Dir, Some(Node::File(_))) | (Node::Dir, Some(Node::Link(_))) => return Err(libc::ENOTDIR),
                (Node::File(_), Some(Node::Dir)) | (Node::Link(_), Some(Node::Dir)) => return Err(libc::EISDIR),
                (Node::Dir, Some(Node::Dir)) if !w.vfs.children(&to).is_empty() => return Err(libc::ENOTEMPTY),
                _ => {}
            }
            w.vfs.nodes.remove(&from);
            if let Node::Dir = n {
                let pre = format!("{}/", from);
                let moved: Vec<(String, Node)> = w
                    .vfs
                    .nodes
                    .range(pre.clone()..)
                    .take_while(|(k, _)| k.starts_with(&pre))
                    .map(|(k, v)| (k.clone(), v.clone()))
                    .collect();
                for (k, v) in moved {
                    w.vfs.nodes.remove(&k);
                    w.vfs.nodes.insert(format!("{}/{}", to, &k[pre.len()..]), v);
                }
            }
            w.vfs.nodes.insert(to, n);
            Ok(0)
        })),
        None => raw!(libc::SYS_rename, a, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    match me() {
        Some(_) => rename(a, b),
        None => raw!(libc::SYS_renameat, d1, a, d2, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    match me() {
        Some(p) => cint(op(p, Class::Other, || "link".into(), |w, _| {
            let from = entry_of(w, libc::AT_FDCWD, a)?;
            let to = entry_of(w, libc::AT_FDCWD, b)?;
            let n = w.vfs.get(&from).cloned().ok_or(libc::ENOENT)?;
            w.vfs.check_parent(&to)?;
            if w.vfs.get(&to).is_some() {
                return Err(libc::EEXIST);
            }
            w.vfs.nodes.insert(to, n);
            Ok(0)
        })),
        None => raw!(libc::SYS_link, a, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    match me() {
        Some(_) => link(a, b),
        None => raw!(libc::SYS_linkat, d1, a, d2, b, fl) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    match me() {
        Some(p) => cint(op(p, Class::Other, || format!("symlink({}, {})", show(a), show(b)), |w, _| {
            let at = entry_of(w, libc::AT_FDCWD, b)?;
            let t = show(a);
            let target = super::vfs::normalise(super::vfs::parent(&at), &t);
            w.vfs.check_parent(&at)?;
            if w.vfs.get(&at).is_some() {
                return Err(libc::EEXIST);
            }
            w.vfs.link(&at, &target);
            Ok(0)
        })),
        None => raw!(libc::SYS_symlink, a, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    match me() {
        Some(p) => cint(op(p, Class::Stat, || format!("readlink({})", show(a)), |w, _| {
            let at = entry_of(w, libc::AT_FDCWD, a)?;
            match w.vfs.get(&at) {
                Some(Node::Link(t)) => {
                    let k = t.len().min(n);
                    std::ptr::copy_nonoverlapping(t.as_ptr() as *const c_char, b, k);
                    Ok(k as c_int)
                }
                Some(_) => Err(libc::EINVAL),
                None => Err(libc::ENOENT),
            }
        })) as ssize_t,
        None => raw!(libc::SYS_readlink, a, b, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    match me() {
        Some(p) => {
            let r = op(p, Class::Stat, || format!("realpath({})", show(path)), |w, _| {
                let full = path_of(w, libc::AT_FDCWD, path)?;
                stat_node(w, &full)?;
                Ok(full)
            });
            match r {
                Ok(s) => {
                    let b = if out.is_null() { libc::malloc(s.len() + 1) as *mut c_char } else { out };
                    std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, b, s.len());
                    *b.add(s.len()) = 0;
                    b
                }
                Err(e) => {
                    errno_set(e);
                    std::ptr::null_mut()
                }
            }
        }
        None => {
            let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(next(b"realpath\0"));
            f(path, out)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if me().is_some() {
        let s = CWD.as_bytes();
        if n <= s.len() {
            errno_set(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, buf, s.len());
        *buf.add(s.len()) = 0;
        return buf;
    }
    if raw!(libc::SYS_getcwd, buf, n) < 0 {
        return std::ptr::null_mut();
    }
    buf
}

unsafe fn next(name: &[u8]) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    if p.is_null() {
        libc::abort();
    }
    p
}

pub struct SimDir {
    fd: c_int,
    entries: Vec<(String, u8)>,
    pos: usize,
    ent: libc::dirent64,
}

unsafe fn make_dir(w: &mut World, fd: c_int, full: &str) -> *mut libc::DIR {
    let mut names = w.vfs.children(full);
    if w.benign.shuffle {
        for i in (1..names.len()).rev() {
            let j = i - w.draw(S::Io, i as u64 + 1) as usize;
            names.swap(i, j);
        }
        if names.len() > 1 {
            w.count("shuffled directory listing", 1);
        }
    }
    names.push(".".into());
    names.push("..".into());
    if w.benign.shuffle {
        let k = names.len();
        let a = w.draw(S::Io, k as u64) as usize;
        names.swap(a, k - 1);
    }
    let mut entries = vec![];
    for n in names {
        let mut t = match w.vfs.get(&format!("{}/{}", full, n)) {
            Some(Node::Link(_)) => libc::DT_LNK,
            Some(Node::File(_)) => libc::DT_REG,
            _ => libc::DT_DIR,
        };
        if w.benign.dt_unknown > 0 && w.chance(S::Io, w.benign.dt_unknown, 16) {
            w.count("directory entry of unknown type", 1);
            t = libc::DT_UNKNOWN;
        }
        entries.push((n, t));
    }
    let d = Box::new(SimDir { fd, entries, pos: 0, ent: std::mem::zeroed() });
    Box::into_raw(d) as *mut libc::DIR
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    match me() {
        Some(p) => {
            let r = op(p, Class::Opendir, || format!("opendir({})", show(path)), |w, _| {
                let full = path_of(w, libc::AT_FDCWD, path)?;
                match w.vfs.get(&full) {
                    Some(Node::Dir) => {}
                    Some(_) => return Err(libc::ENOTDIR),
                    None => {
                        w.vfs.check_parent(&full)?;
                        return Err(libc::ENOENT);
                    }
                }
                let fd = w.next_fd;
                w.next_fd += 1;
                w.files.insert(fd, OpenFile { inode: None, path: full.clone(), pos: 0, append: false, r: true, w: false });
                Ok(make_dir(w, fd, &full))
            });
            match r {
                Ok(d) => d,
                Err(e) => {
                    errno_set(e);
                    std::ptr::null_mut()
                }
            }
        }
        None => {
            let f: extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(next(b"opendir\0"));
            f(path)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    match me() {
        Some(p) => {
            let r = op(p, Class::Opendir, || "fdopendir".into(), |w, _| {
                let f = w.files.get(&fd).ok_or(libc::EBADF)?;
                if f.inode.is_some() {
                    return Err(libc::ENOTDIR);
                }
                let full = f.path.clone();
                Ok(make_dir(w, fd, &full))
            });
            match r {
                Ok(d) => d,
                Err(e) => {
                    errno_set(e);
                    std::ptr::null_mut()
                }
            }
        }
        None => {
            let f: extern "C" fn(c_int) -> *mut libc::DIR = std::mem::transmute(next(b"fdopendir\0"));
            f(fd)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    match me() {
        Some(p) => {
            let r = op(p, Class::Readdir, || "readdir".into(), |w, _| {
                let sd = &mut *(d as *mut SimDir);
                if sd.pos >= sd.entries.len() {
                    return Ok(std::ptr::null_mut());
                }
                let (n, t) = sd.entries[sd.pos].clone();
                sd.pos += 1;
                w.mix_str(&n);
                sd.ent.d_ino = 1 + sd.pos as u64;
                sd.ent.d_off = sd.pos as i64;
                sd.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
                sd.ent.d_type = t;
                let b = super::vfs::encode(&n);
                let k = b.len().min(255);
                for i in 0..k {
                    sd.ent.d_name[i] = b[i] as c_char;
                }
                sd.ent.d_name[k] = 0;
                Ok(&mut sd.ent as *mut libc::dirent64)
            });
            match r {
                Ok(e) => e,
                Err(e) => {
                    errno_set(e);
                    std::ptr::null_mut()
                }
            }
        }
        None => {
            let f: extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next(b"readdir64\0"));
            f(d)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut libc::DIR) -> *mut libc::dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    match me() {
        Some(_) => {
            let sd = Box::from_raw(d as *mut SimDir);
            let fd = sd.fd;
            drop(sd);
            let mut gd = lock();
            if let Some(w) = gd.as_mut() {
                w.files.remove(&fd);
            }
            0
        }
        None => {
            let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next(b"closedir\0"));
            f(d)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    match me() {
        Some(_) => (*(d as *mut SimDir)).fd,
        None => {
            let f: extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(next(b"dirfd\0"));
            f(d)
        }
    }
}

// ---- misc file calls -------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match me() {
        Some(p) => cint(op(p, Class::Other, || "fsync".into(), |_, _| Ok(0))),
        None => raw!(libc::SYS_fsync, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match me() {
        Some(p) => cint(op(p, Class::Other, || "fdatasync".into(), |_, _| Ok(0))),
        None => raw!(libc::SYS_fdatasync, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if me().is_some() {
        if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
            return cint(Err(libc::EINVAL));
        }
        return 0;
    }
    raw!(libc::SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, how: c_int) -> c_int {
    if me().is_some() {
        return 0;
    }
    raw!(libc::SYS_flock, fd, how) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    match me() {
        Some(p) => cint(stat_any(p, libc::AT_FDCWD, path, 0).map(|_| 0)),
        None => raw!(libc::SYS_chmod, path, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if me().is_some() {
        return 0;
    }
    raw!(libc::SYS_fchmod, fd, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut i64, c: c_int, d: *mut i64, n: size_t, fl: u32) -> ssize_t {
    if me().is_some() {
        errno_set(libc::ENOSYS);
        return -1;
    }
    raw!(libc::SYS_copy_file_range, a, b, c, d, n, fl) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, c: *mut i64, n: size_t) -> ssize_t {
    if me().is_some() {
        errno_set(libc::EINVAL);
        return -1;
    }
    raw!(libc::SYS_sendfile, a, b, c, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if me().is_some() {
        return 0;
    }
    let mut t = [0u8; 64];
    (raw!(libc::SYS_ioctl, fd, 0x5401, t.as_mut_ptr()) == 0) as c_int
}

// ---- time, entropy, identity -----------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    match me() {
        Some(p) => {
            let mut gd = lock();
            let w = gd.as_mut().unwrap();
            let t = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
                w.procs[p].days.insert(w.now.div_euclid(86_400_000_000_000));
                w.now
            } else {
                w.mono
            };
            w.now += 1;
            w.mono += 1;
            w.count("clock read", 1);
            (*ts).tv_sec = t.div_euclid(1_000_000_000);
            (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
            0
        }
        None => raw!(libc::SYS_clock_gettime, clk, ts) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if me().is_some() {
        let mut ts: libc::timespec = std::mem::zeroed();
        clock_gettime(libc::CLOCK_REALTIME, &mut ts);
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    raw!(libc::SYS_gettimeofday, tv, tz) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    match me() {
        Some(_) => {
            let mut gd = lock();
            let w = gd.as_mut().unwrap();
            let seed = w.draw(S::Io, 1 << 32);
            w.count("entropy request", 1);
            let mut pr = Prng::new(seed);
            let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            for c in out.chunks_mut(8) {
                let v = pr.next().to_le_bytes();
                let k = c.len();
                c.copy_from_slice(&v[..k]);
            }
            n as ssize_t
        }
        None => raw!(libc::SYS_getrandom, buf, n, flags) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    match me() {
        Some(p) => {
            let ns = (*a).tv_sec * 1_000_000_000 + (*a).tv_nsec;
            let _ = op(p, Class::Yield, || "sleep".into(), |w, _| {
                w.now += ns;
                w.mono += ns;
                w.simulated += ns;
                Ok(())
            });
            0
        }
        None => raw!(libc::SYS_nanosleep, a, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, fl: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if me().is_some() && fl == 0 {
        return nanosleep(a, b);
    }
    if me().is_some() {
        return 0;
    }
    let r = raw!(libc::SYS_clock_nanosleep, c, fl, a, b);
    if r < 0 { *libc::__errno_location() } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    match me() {
        Some(p) => {
            let _ = op(p, Class::Yield, || "sched_yield".into(), |_, _| Ok(()));
            0
        }
        None => raw!(libc::SYS_sched_yield) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    match me() {
        Some(p) => 4000 + p as c_int,
        None => raw!(libc::SYS_getpid) as c_int,
    }
}

#[allow(dead_code)]
fn unused() {
    let _ = (base(""), parent(""));
}

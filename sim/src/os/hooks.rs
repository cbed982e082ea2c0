//! Definitions of the libc symbols that the code under test reaches the outside world with.
//! A call from a simulated thread is served by the simulator, any other goes to the kernel.
use super::*;
use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}

// ------------------------------------------------------------------ real symbols
unsafe fn next(name: &[u8]) -> usize {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    assert!(!p.is_null());
    p as usize
}
macro_rules! real {
    ($name:literal, $ty:ty) => {{
        static mut F: usize = 0;
        if F == 0 {
            F = next(concat!($name, "\0").as_bytes());
        }
        let p = F;
        std::mem::transmute::<usize, $ty>(p)
    }};
}
type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
pub unsafe fn real_pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: StartFn,
    arg: *mut c_void,
) -> i32 {
    real!(
        "pthread_create",
        unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> i32
    )(out, attr, f, arg)
}
pub unsafe fn real_tryjoin(t: libc::pthread_t) -> i32 {
    real!("pthread_tryjoin_np", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> i32)(
        t,
        std::ptr::null_mut(),
    )
}

// ------------------------------------------------------------------ threads and time
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: StartFn,
    arg: *mut c_void,
) -> c_int {
    if in_sim() {
        // a detached attribute would keep the manager from reaping; std never sets it
        return super::spawn(attr, f, arg, out);
    }
    real_pthread_create(out, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if in_sim() {
        return super::join(t, r);
    }
    real!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> i32)(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: libc::pthread_t) -> c_int {
    if in_sim() {
        return 0;
    }
    real!("pthread_detach", unsafe extern "C" fn(libc::pthread_t) -> i32)(t)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() {
        super::yield_now();
        return 0;
    }
    ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn clock_now(clk: c_int) -> u64 {
    let s = sim();
    s.now += 100;
    match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => s.now + 1_700_000_000_000_000_000,
        _ => s.now,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if in_sim() {
        let n = clock_now(clk);
        (*ts).tv_sec = (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if in_sim() {
        let n = clock_now(libc::CLOCK_REALTIME);
        (*tv).tv_sec = (n / 1_000_000_000) as i64;
        (*tv).tv_usec = (n % 1_000_000_000 / 1000) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_gettimeofday, tv as i64, tz as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let v = if in_sim() {
        (clock_now(libc::CLOCK_REALTIME) / 1_000_000_000) as i64
    } else {
        raw6(libc::SYS_time, 0, 0, 0, 0, 0, 0)
    };
    if !t.is_null() {
        *t = v;
    }
    v
}
unsafe fn ts_ns(ts: *const libc::timespec) -> u64 {
    ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if in_sim() {
        super::sleep_ns(ts_ns(req));
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: c_int,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if in_sim() {
        let n = ts_ns(req);
        if flags & 1 != 0 {
            let now = clock_now(clk);
            super::sleep_ns(n.saturating_sub(now));
        } else {
            super::sleep_ns(n);
        }
        return 0;
    }
    (-raw6(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if in_sim() {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        sim().rng_os.fill(b);
        return len as ssize_t;
    }
    ret(raw6(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if in_sim() {
        match n {
            libc::SYS_futex => {
                let op = b as c_int & 0x7f;
                let r = match op {
                    0 | 9 => {
                        // FUTEX_WAIT (relative) / FUTEX_WAIT_BITSET (absolute)
                        let ts = d as *const libc::timespec;
                        let dl = if ts.is_null() {
                            u64::MAX
                        } else if op == 0 {
                            sim().now.saturating_add(ts_ns(ts))
                        } else if b as c_int & libc::FUTEX_CLOCK_REALTIME != 0 {
                            ts_ns(ts).saturating_sub(1_700_000_000_000_000_000)
                        } else {
                            ts_ns(ts)
                        };
                        super::futex_wait(a as usize, c as u32, dl)
                    }
                    1 | 10 => super::futex_wake(a as usize, c as u32 as u64),
                    _ => panic!("futex op {op} not simulated"),
                };
                return ret(r);
            }
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as u32) as c_long,
            libc::SYS_copy_file_range => {
                set_errno(libc::ENOSYS);
                return -1;
            }
            libc::SYS_statx => {
                return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as c_long
            }
            libc::SYS_gettid => return my_tid() as c_long,
            _ => {}
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}

/// scheduling hook called by the vendored sled and parking_lot
#[no_mangle]
pub extern "C" fn bct_sim_point(kind: u32) {
    if in_sim() {
        if kind == 500 {
            sim().log_waiters += 1;
        } else if kind == 501 {
            sim().log_waiters -= 1;
        } else if kind == 502 {
            sim().opening += 1;
        } else if kind == 503 {
            sim().opening -= 1;
        } else if kind >= 1000 {
            super::yield_now();
        } else {
            if kind == 205 || kind == 220 {
                sim().asked_flushes += 1;
            }
            super::point(kind);
        }
    }
}

/// the size of a log segment of the vendored sled
#[no_mangle]
pub extern "C" fn bct_sim_segment() -> usize {
    if in_sim() {
        sim().segment
    } else {
        512 << 10
    }
}

// ------------------------------------------------------------------ files
pub struct DirStream {
    entries: Vec<(String, u64, bool)>,
    pos: usize,
    fd: i32,
    ent: Box<libc::dirent64>,
}

struct Loc {
    disk: usize,
    comps: Vec<String>,
    path: String,
}

fn in_namespace(p: &[u8]) -> bool {
    p == b"/sim" || p.starts_with(b"/sim/")
}

/// where a path leads; Err(errno) for anything a simulated thread must not reach
fn locate(dirfd: c_int, p: &[u8]) -> Result<(Loc, u64), i32> {
    let s = sim();
    let text = decode(p);
    if dirfd >= FD_BASE && !p.starts_with(b"/") {
        let ofd = s.fds.get(&dirfd).and_then(|o| s.ofds.get(o)).ok_or(libc::EBADF)?;
        let comps = norm(&text);
        return Ok((Loc { disk: ofd.disk, comps, path: format!("{}/{}", ofd.path, text) }, ofd.ino));
    }
    if !in_namespace(p) {
        s.denied.insert(text);
        return Err(libc::ENOENT);
    }
    let mut comps = norm(&text[4..]);
    if comps.is_empty() {
        return Err(libc::EACCES);
    }
    let d = comps.remove(0);
    let disk = *s.mounts.get(&d).ok_or(libc::ENOENT)?;
    let path = format!("/{}/{}", d, comps.join("/"));
    Ok((Loc { disk, comps, path }, vfs::ROOT))
}
/// paths are kept as text; bytes that are none stand for themselves in a private range
fn decode(p: &[u8]) -> String {
    let mut t = String::new();
    for c in p.utf8_chunks() {
        t.push_str(c.valid());
        t.extend(c.invalid().iter().map(|b| char::from_u32(0x10_FE00 + *b as u32).unwrap()));
    }
    t
}
fn encode(t: &str) -> Vec<u8> {
    let mut p = vec![];
    for c in t.chars() {
        match c as u32 {
            x @ 0x10_FE00..=0x10_FEFF => p.push((x - 0x10_FE00) as u8),
            _ => p.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    p
}
fn norm(p: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c.to_string()),
        }
    }
    v
}

fn live(s: &Sim, disk: usize) -> bool {
    s.mounts.get(&s.disks[disk].name) == Some(&disk)
}

/// Everything that happens around one disk operation: a scheduling point, time, an injected
/// error, the crash countdown.  `Ok(true)`: take the crash image after applying the operation.
fn disk_op(disk: usize, class: u32, path: &str, len: u64) -> Result<bool, i32> {
    super::point(class & 0xffff);
    let s = sim();
    s.disk_ops += 1;
    s.io_count += 1;
    let tick = s.knobs.tick_io_ns;
    let n = s.now + tick;
    super::advance(s, n);
    if s.knobs.p_slow_io > 0 && s.rng_io.ppm(s.knobs.p_slow_io) {
        let ns = 1u64 << s.rng_io.range(14, 29);
        count_fault("slow_io");
        super::sleep_ns(ns);
    }
    let s = sim();
    let is_live = live(s, disk);
    if s.full_trace {
        let name = s.disks[disk].name.clone();
        let m = s.disks[disk].mutations;
        note(|| format!("disk {name}{} #{m} {} {path} {len}", if is_live { "" } else { " (dead)" }, super::class::name(class)));
    }
    if !is_live {
        return Ok(false);
    }
    super::mixin(class as u64 ^ (len << 16));
    super::mixin_str(path);
    let name = s.disks[disk].name.clone();
    if let Some(rules) = s.rules.get_mut(&name) {
        for r in rules.iter_mut() {
            if r.mask & class != 0 && r.path.split('*').all(|part| path.contains(part)) {
                if r.skip > 0 {
                    r.skip -= 1;
                } else if r.count > 0 {
                    r.count -= 1;
                    let e = r.errno;
                    let k = format!("{}:{}", super::class::name(class), errno_name(e));
                    count_fault(&k);
                    if class == super::class::READ && path.ends_with("/db") && s.opening > 0 {
                        count_fault("failed_reads_of_a_log");
                    }
                    note(|| format!("FAULT {k} on {path}"));
                    return Err(e);
                }
            }
        }
    }
    if class & class::MUTATING != 0 {
        let d = &mut s.disks[disk];
        d.mutations += 1;
        if let Some(c) = &mut d.crash {
            if c.after_ops <= 1 {
                let c = c.clone();
                if c.before {
                    take_image(disk, &c, class, path, true);
                    return Ok(false);
                }
                return Ok(true);
            }
            c.after_ops -= 1;
        }
    }
    Ok(false)
}
fn take_image(disk: usize, c: &CrashPlan, class: u32, path: &str, before: bool) {
    let e = sim().events;
    let d = &mut sim().disks[disk];
    d.crash_event = e;
    let img = d.crash_image(c.mode, c.seed);
    d.image = Some(Box::new(img));
    d.crash = None;
    d.crash_op = format!(
        "{} {} {}",
        if before { "before" } else { "after" },
        super::class::name(class),
        path
    );
    let what = format!("crash({:?}) {}", c.mode, d.crash_op);
    count_fault(match c.mode {
        CrashMode::Kill => "crash_in_disk_op:process_kill",
        CrashMode::Power => "crash_in_disk_op:power_loss",
    });
    note(|| what);
}
fn after_op(disk: usize, take: bool, class: u32, path: &str) {
    if take {
        if let Some(c) = sim().disks[disk].crash.clone() {
            take_image(disk, &c, class, path, false);
        }
    }
}
pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EINTR => "EINTR",
        libc::EACCES => "EACCES",
        libc::EMFILE => "EMFILE",
        _ => "E?",
    }
}

fn new_fd(ofd: Ofd) -> i32 {
    let s = sim();
    let o = s.next_ofd;
    s.next_ofd += 1;
    s.disks[ofd.disk].inodes.get_mut(&ofd.ino).unwrap().open += 1;
    s.ofds.insert(o, ofd);
    let fd = s.next_fd;
    s.next_fd += 1;
    s.fds.insert(fd, o);
    fd
}

fn do_open(dirfd: c_int, p: &[u8], flags: c_int) -> Result<i32, i32> {
    let (l, base) = locate(dirfd, p)?;
    let exists = sim().disks[l.disk].lookup(base, &l.comps);
    let creating = exists.is_err() && flags & libc::O_CREAT != 0;
    let cls = if creating {
        class::CREATE
    } else if flags & libc::O_TRUNC != 0 {
        class::TRUNC
    } else {
        class::OPEN
    };
    let take = disk_op(l.disk, cls, &l.path, 0)?;
    let s = sim();
    let ino = match s.disks[l.disk].lookup(base, &l.comps) {
        Ok(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            if s.disks[l.disk].is_dir(i) && flags & libc::O_ACCMODE != libc::O_RDONLY {
                return Err(libc::EISDIR);
            }
            if !s.disks[l.disk].is_dir(i) && flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            if flags & libc::O_TRUNC != 0 && !s.disks[l.disk].is_dir(i) {
                s.disks[l.disk].truncate(i, 0);
            }
            i
        }
        Err(e) => {
            if flags & libc::O_CREAT == 0 || e != libc::ENOENT {
                return Err(e);
            }
            let (par, name) = s.disks[l.disk].parent(base, &l.comps)?;
            if s.disks[l.disk].used >= s.disks[l.disk].capacity {
                count_fault("create:ENOSPC(full)");
                return Err(libc::ENOSPC);
            }
            if l.path.contains("/blobs/") {
                s.large_values += 1;
            }
            s.disks[l.disk].create(par, &name, false)
        }
    };
    after_op(l.disk, take, cls, &l.path);
    let acc = flags & libc::O_ACCMODE;
    Ok(new_fd(Ofd {
        disk: l.disk,
        ino,
        pos: 0,
        refs: 1,
        append: flags & libc::O_APPEND != 0,
        readable: acc != libc::O_WRONLY,
        writable: acc != libc::O_RDONLY,
        path: l.path,
    }))
}
fn wrap(r: Result<i64, i32>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            unsafe { set_errno(e) };
            -1
        }
    }
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}
fn ofd_of(fd: c_int) -> Result<&'static mut Ofd, i32> {
    let s = sim();
    let o = s.fds.get(&fd).ok_or(libc::EBADF)?;
    s.ofds.get_mut(o).ok_or(libc::EBADF)
}

macro_rules! open_fn {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
            if in_sim() {
                return wrap(do_open(libc::AT_FDCWD, cstr(p), flags).map(|x| x as i64)) as c_int;
            }
            ret(raw6(libc::SYS_openat, libc::AT_FDCWD as i64, p as i64, flags as i64, mode as i64, 0, 0))
                as c_int
        }
    };
}
open_fn!(open);
open_fn!(open64);
macro_rules! openat_fn {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
            if in_sim() {
                return wrap(do_open(d, cstr(p), flags).map(|x| x as i64)) as c_int;
            }
            ret(raw6(libc::SYS_openat, d as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
        }
    };
}
openat_fn!(openat);
openat_fn!(openat64);

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE && active() {
        let s = sim();
        let Some(o) = s.fds.remove(&fd) else {
            set_errno(libc::EBADF);
            return -1;
        };
        let ofd = s.ofds.get_mut(&o).unwrap();
        ofd.refs -= 1;
        if ofd.refs == 0 {
            let ofd = s.ofds.remove(&o).unwrap();
            let ino = s.disks[ofd.disk].inodes.get_mut(&ofd.ino).unwrap();
            ino.open -= 1;
            if ino.lock == Some(o) {
                ino.lock = None;
            }
        }
        return 0;
    }
    ret(raw6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}

fn do_read(fd: c_int, buf: &mut [u8], at: Option<u64>) -> Result<i64, i32> {
    let (disk, ino, path, pos, ok) = {
        let o = ofd_of(fd)?;
        (o.disk, o.ino, o.path.clone(), at.unwrap_or(o.pos), o.readable)
    };
    if !ok {
        return Err(libc::EBADF);
    }
    disk_op(disk, class::READ, &path, buf.len() as u64)?;
    let s = sim();
    if s.knobs.p_eintr > 0 && s.rng_io.ppm(s.knobs.p_eintr) {
        count_fault("read:EINTR");
        return Err(libc::EINTR);
    }
    let mut n = buf.len();
    if s.knobs.p_short > 0 && n > 1 && s.rng_io.ppm(s.knobs.p_short) {
        n = s.rng_io.range(1, n as u64 - 1) as usize;
        count_fault("short_read");
    }
    let f = s.disks[disk].file(ino).ok_or(libc::EISDIR)?;
    let got = f.read_at(pos, &mut buf[..n]);
    if at.is_none() {
        ofd_of(fd)?.pos += got as u64;
    }
    Ok(got as i64)
}
fn do_write(fd: c_int, buf: &[u8], at: Option<u64>) -> Result<i64, i32> {
    let (disk, ino, path, ok) = {
        let o = ofd_of(fd)?;
        (o.disk, o.ino, o.path.clone(), o.writable)
    };
    if !ok {
        return Err(libc::EBADF);
    }
    let take = disk_op(disk, class::WRITE, &path, buf.len() as u64)?;
    let s = sim();
    if s.knobs.p_eintr > 0 && s.rng_io.ppm(s.knobs.p_eintr) {
        count_fault("write:EINTR");
        return Err(libc::EINTR);
    }
    let mut n = buf.len();
    if s.knobs.p_short > 0 && n > 1 && s.rng_io.ppm(s.knobs.p_short) {
        n = s.rng_io.range(1, n as u64 - 1) as usize;
        count_fault("short_write");
    }
    let d = &mut s.disks[disk];
    if d.used >= d.capacity {
        count_fault("write:ENOSPC(full)");
        return Err(libc::ENOSPC);
    }
    if d.used + n as u64 > d.capacity && n as u64 > d.capacity - d.used {
        n = (d.capacity - d.used) as usize;
        count_fault("short_write(full)");
    }
    let o = ofd_of(fd)?;
    let pos = match at {
        Some(p) => p,
        None if o.append => d.file(ino).ok_or(libc::EISDIR)?.size,
        None => o.pos,
    };
    d.write(ino, pos, &buf[..n]);
    if at.is_none() {
        o.pos = pos + n as u64;
    }
    after_op(disk, take, class::WRITE, &path);
    Ok(n as i64)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd >= FD_BASE && in_sim() {
        return wrap(do_read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), None)) as ssize_t;
    }
    ret(raw6(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if in_sim() {
        if fd >= FD_BASE {
            return wrap(do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), None)) as ssize_t;
        }
        if (fd == 1 || fd == 2) && !ECHO {
            return n as ssize_t; // what the code under test prints goes nowhere
        }
    }
    ret(raw6(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0)) as ssize_t
}
pub static mut ECHO: bool = false;
macro_rules! pread_fn {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
            if fd >= FD_BASE && in_sim() {
                return wrap(do_read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), Some(off as u64)))
                    as ssize_t;
            }
            ret(raw6(libc::SYS_pread64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
        }
    };
}
pread_fn!(pread);
pread_fn!(pread64);
macro_rules! pwrite_fn {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
            if fd >= FD_BASE && in_sim() {
                return wrap(do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as u64)))
                    as ssize_t;
            }
            ret(raw6(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0)) as ssize_t
        }
    };
}
pwrite_fn!(pwrite);
pwrite_fn!(pwrite64);
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if fd >= FD_BASE && in_sim() {
        let mut total = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len == 0 {
                continue;
            }
            let r = read(fd, v.iov_base, v.iov_len);
            if r < 0 {
                return if total > 0 { total } else { r };
            }
            total += r;
            if (r as usize) < v.iov_len {
                break;
            }
        }
        return total;
    }
    ret(raw6(libc::SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if in_sim() {
        let mut total = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len == 0 {
                continue;
            }
            let r = write(fd, v.iov_base, v.iov_len);
            if r < 0 {
                return if total > 0 { total } else { r };
            }
            total += r;
            if (r as usize) < v.iov_len {
                break;
            }
        }
        return total;
    }
    ret(raw6(libc::SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0)) as ssize_t
}
macro_rules! lseek_fn {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
            if fd >= FD_BASE && in_sim() {
                return wrap((|| {
                    let o = ofd_of(fd)?;
                    let size = sim().disks[o.disk].file(o.ino).map(|f| f.size).unwrap_or(0) as i64;
                    let base = match wh {
                        libc::SEEK_SET => 0,
                        libc::SEEK_CUR => o.pos as i64,
                        libc::SEEK_END => size,
                        _ => return Err(libc::EINVAL),
                    };
                    if base + off < 0 {
                        return Err(libc::EINVAL);
                    }
                    o.pos = (base + off) as u64;
                    Ok(o.pos as i64)
                })());
            }
            ret(raw6(libc::SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0))
        }
    };
}
lseek_fn!(lseek);
lseek_fn!(lseek64);
macro_rules! ftruncate_fn {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, len: off64_t) -> c_int {
            if fd >= FD_BASE && in_sim() {
                return wrap((|| {
                    let (d, i, p) = {
                        let o = ofd_of(fd)?;
                        (o.disk, o.ino, o.path.clone())
                    };
                    let take = disk_op(d, class::TRUNC, &p, len as u64)?;
                    sim().disks[d].truncate(i, len as u64);
                    after_op(d, take, class::TRUNC, &p);
                    Ok(0)
                })()) as c_int;
            }
            ret(raw6(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int
        }
    };
}
ftruncate_fn!(ftruncate);
ftruncate_fn!(ftruncate64);
fn do_sync(fd: c_int, cls: u32) -> Result<i64, i32> {
    let (d, i, p) = {
        let o = ofd_of(fd)?;
        (o.disk, o.ino, o.path.clone())
    };
    let take = disk_op(d, cls, &p, 0)?;
    sim().disks[d].sync(i);
    after_op(d, take, cls, &p);
    Ok(0)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fd >= FD_BASE && in_sim() {
        return wrap(do_sync(fd, class::SYNC)) as c_int;
    }
    ret(raw6(libc::SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if fd >= FD_BASE && in_sim() {
        return wrap(do_sync(fd, class::SYNC)) as c_int;
    }
    ret(raw6(libc::SYS_fdatasync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, off: off64_t, n: off64_t, fl: u32) -> c_int {
    if fd >= FD_BASE && in_sim() {
        return wrap(do_sync(fd, class::RANGE_SYNC)) as c_int;
    }
    ret(raw6(libc::SYS_sync_file_range, fd as i64, off, n, fl as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if fd >= FD_BASE && in_sim() {
        return wrap((|| {
            super::point(77);
            let s = sim();
            let o = *s.fds.get(&fd).ok_or(libc::EBADF)?;
            let (d, i) = (s.ofds[&o].disk, s.ofds[&o].ino);
            let l = &mut s.disks[d].inodes.get_mut(&i).unwrap().lock;
            if op & libc::LOCK_UN != 0 {
                if *l == Some(o) {
                    *l = None;
                }
                return Ok(0);
            }
            match l {
                Some(h) if *h != o => Err(libc::EWOULDBLOCK),
                _ => {
                    *l = Some(o);
                    Ok(0)
                }
            }
        })()) as c_int;
    }
    ret(raw6(libc::SYS_flock, fd as i64, op as i64, 0, 0, 0, 0)) as c_int
}
macro_rules! fcntl_fn {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
            if fd >= FD_BASE && in_sim() {
                return match cmd {
                    libc::F_GETFD => libc::FD_CLOEXEC,
                    libc::F_SETFD => 0,
                    libc::F_GETFL => libc::O_RDWR,
                    libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => dup_fd(fd),
                    _ => {
                        set_errno(libc::EINVAL);
                        -1
                    }
                };
            }
            ret(raw6(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
        }
    };
}
fcntl_fn!(fcntl);
fcntl_fn!(fcntl64);
unsafe fn dup_fd(fd: c_int) -> c_int {
    let s = sim();
    let Some(o) = s.fds.get(&fd).copied() else {
        set_errno(libc::EBADF);
        return -1;
    };
    s.ofds.get_mut(&o).unwrap().refs += 1;
    let n = s.next_fd;
    s.next_fd += 1;
    s.fds.insert(n, o);
    n
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if fd >= FD_BASE && in_sim() {
        return dup_fd(fd);
    }
    ret(raw6(libc::SYS_dup, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if fd >= FD_BASE && in_sim() {
        return 0;
    }
    ret(raw6(libc::SYS_fchmod, fd as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if in_sim() {
        return wrap(locate(libc::AT_FDCWD, cstr(p)).map(|_| 0)) as c_int;
    }
    ret(raw6(libc::SYS_chmod, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
macro_rules! nosys {
    ($name:ident, $sys:expr, $($a:ident : $t:ty),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> ssize_t {
            if in_sim() {
                set_errno(libc::ENOSYS);
                return -1;
            }
            let v = [$($a as i64),*, 0, 0, 0, 0, 0, 0];
            ret(raw6($sys, v[0], v[1], v[2], v[3], v[4], v[5])) as ssize_t
        }
    };
}
nosys!(copy_file_range, libc::SYS_copy_file_range, a: c_int, b: *mut i64, c: c_int, d: *mut i64, e: size_t, f: u32);
nosys!(sendfile, libc::SYS_sendfile, a: c_int, b: c_int, c: *mut i64, d: size_t);
nosys!(sendfile64, libc::SYS_sendfile, a: c_int, b: c_int, c: *mut i64, d: size_t);
nosys!(splice, libc::SYS_splice, a: c_int, b: *mut i64, c: c_int, d: *mut i64, e: size_t, f: u32);

// ------------------------------------------------------------------ metadata
struct Meta {
    dir: bool,
    size: u64,
    ino: u64,
    disk: u64,
}
fn meta_path(dirfd: c_int, p: &[u8]) -> Result<Meta, i32> {
    let (l, base) = locate(dirfd, p)?;
    disk_op(l.disk, class::STAT, &l.path, 0)?;
    let d = &sim().disks[l.disk];
    let i = d.lookup(base, &l.comps)?;
    Ok(meta_of(l.disk, i))
}
fn meta_of(disk: usize, ino: u64) -> Meta {
    let d = &sim().disks[disk];
    Meta { dir: d.is_dir(ino), size: d.file(ino).map(|f| f.size).unwrap_or(4096), ino, disk: disk as u64 }
}
fn meta_fd(fd: c_int) -> Result<Meta, i32> {
    let o = ofd_of(fd)?;
    let (d, i, p) = (o.disk, o.ino, o.path.clone());
    disk_op(d, class::STAT, &p, 0)?;
    Ok(meta_of(d, i))
}
unsafe fn put_stat(m: Meta, st: *mut libc::stat64) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_mode = if m.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*st).st_size = m.size as i64;
    (*st).st_ino = m.ino;
    (*st).st_dev = 1000 + m.disk;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    (*st).st_blocks = m.size.div_ceil(512) as i64;
}
unsafe fn put_statx(m: Meta, st: *mut libc::statx) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
    (*st).stx_mask = 0x7ff;
    (*st).stx_mode = (if m.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }) as u16;
    (*st).stx_size = m.size;
    (*st).stx_ino = m.ino;
    (*st).stx_dev_major = 1;
    (*st).stx_dev_minor = m.disk as u32;
    (*st).stx_nlink = 1;
    (*st).stx_blksize = 4096;
    (*st).stx_blocks = m.size.div_ceil(512);
}
macro_rules! stat_fn {
    ($name:ident, $flag:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const c_char, st: *mut libc::stat64) -> c_int {
            if in_sim() {
                return wrap(meta_path(libc::AT_FDCWD, cstr(p)).map(|m| {
                    put_stat(m, st);
                    0
                })) as c_int;
            }
            ret(raw6(libc::SYS_newfstatat, libc::AT_FDCWD as i64, p as i64, st as i64, $flag, 0, 0)) as c_int
        }
    };
}
stat_fn!(stat, 0);
stat_fn!(stat64, 0);
stat_fn!(lstat, libc::AT_SYMLINK_NOFOLLOW as i64);
stat_fn!(lstat64, libc::AT_SYMLINK_NOFOLLOW as i64);
macro_rules! fstat_fn {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, st: *mut libc::stat64) -> c_int {
            if fd >= FD_BASE && in_sim() {
                return wrap(meta_fd(fd).map(|m| {
                    put_stat(m, st);
                    0
                })) as c_int;
            }
            ret(raw6(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0)) as c_int
        }
    };
}
fstat_fn!(fstat);
fstat_fn!(fstat64);
macro_rules! fstatat_fn {
    ($name:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(d: c_int, p: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
            if in_sim() {
                let r = if cstr(p).is_empty() { meta_fd(d) } else { meta_path(d, cstr(p)) };
                return wrap(r.map(|m| {
                    put_stat(m, st);
                    0
                })) as c_int;
            }
            ret(raw6(libc::SYS_newfstatat, d as i64, p as i64, st as i64, fl as i64, 0, 0)) as c_int
        }
    };
}
fstatat_fn!(fstatat);
fstatat_fn!(fstatat64);
#[no_mangle]
pub unsafe extern "C" fn statx(
    d: c_int,
    p: *const c_char,
    fl: c_int,
    mask: u32,
    st: *mut libc::statx,
) -> c_int {
    if in_sim() && !p.is_null() {
        let r = if cstr(p).is_empty() { meta_fd(d) } else { meta_path(d, cstr(p)) };
        return wrap(r.map(|m| {
            put_statx(m, st);
            0
        })) as c_int;
    }
    ret(raw6(libc::SYS_statx, d as i64, p as i64, fl as i64, mask as i64, st as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if in_sim() {
        return wrap(meta_path(libc::AT_FDCWD, cstr(p)).map(|_| 0)) as c_int;
    }
    ret(raw6(libc::SYS_access, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if in_sim() {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(raw6(libc::SYS_readlink, p as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if in_sim() {
        let path = cstr(p);
        if let Err(e) = meta_path(libc::AT_FDCWD, path) {
            set_errno(e);
            return std::ptr::null_mut();
        }
        let text = encode(&format!("/{}", norm(&decode(path)).join("/")));
        let buf = if out.is_null() { libc::malloc(4096) as *mut c_char } else { out };
        std::ptr::copy_nonoverlapping(text.as_ptr() as *const c_char, buf, text.len());
        *buf.add(text.len()) = 0;
        return buf;
    }
    real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out)
}

// ------------------------------------------------------------------ namespace
fn do_mkdir(dirfd: c_int, p: &[u8]) -> Result<i64, i32> {
    let (l, base) = locate(dirfd, p)?;
    let take = disk_op(l.disk, class::MKDIR, &l.path, 0)?;
    let d = &mut sim().disks[l.disk];
    let (par, name) = d.parent(base, &l.comps)?;
    if d.entry(par, &name).is_some() {
        return Err(libc::EEXIST);
    }
    d.create(par, &name, true);
    after_op(l.disk, take, class::MKDIR, &l.path);
    Ok(0)
}
fn do_unlink(dirfd: c_int, p: &[u8], dir: bool) -> Result<i64, i32> {
    let (l, base) = locate(dirfd, p)?;
    let cls = if dir { class::RMDIR } else { class::UNLINK };
    let take = disk_op(l.disk, cls, &l.path, 0)?;
    let d = &mut sim().disks[l.disk];
    let (par, name) = d.parent(base, &l.comps)?;
    let ino = d.entry(par, &name).ok_or(libc::ENOENT)?;
    match (d.is_dir(ino), dir) {
        (true, false) => return Err(libc::EISDIR),
        (false, true) => return Err(libc::ENOTDIR),
        (true, true) if !d.list(ino).is_empty() => return Err(libc::ENOTEMPTY),
        _ => {}
    }
    if let Some(f) = d.file(ino) {
        d.used -= f.bytes_allocated().min(d.used);
    }
    d.unlink(par, &name);
    after_op(l.disk, take, cls, &l.path);
    Ok(0)
}
fn do_rename(d1: c_int, p1: &[u8], d2: c_int, p2: &[u8]) -> Result<i64, i32> {
    let (a, b1) = locate(d1, p1)?;
    let (b, b2) = locate(d2, p2)?;
    if a.disk != b.disk {
        return Err(libc::EXDEV);
    }
    let what = format!("{} -> {}", a.path, b.path);
    let take = disk_op(a.disk, class::RENAME, &what, 0)?;
    let d = &mut sim().disks[a.disk];
    let (pa, na) = d.parent(b1, &a.comps)?;
    let (pb, nb) = d.parent(b2, &b.comps)?;
    let src = d.entry(pa, &na).ok_or(libc::ENOENT)?;
    if let Some(t) = d.entry(pb, &nb) {
        match (d.is_dir(src), d.is_dir(t)) {
            (false, true) => return Err(libc::EISDIR),
            (true, false) => return Err(libc::ENOTDIR),
            (true, true) if !d.list(t).is_empty() => return Err(libc::ENOTEMPTY),
            _ => {}
        }
    }
    d.rename(pa, &na, pb, &nb);
    after_op(a.disk, take, class::RENAME, &what);
    Ok(0)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    if in_sim() {
        return wrap(do_mkdir(libc::AT_FDCWD, cstr(p))) as c_int;
    }
    ret(raw6(libc::SYS_mkdir, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if in_sim() {
        return wrap(do_unlink(libc::AT_FDCWD, cstr(p), true)) as c_int;
    }
    ret(raw6(libc::SYS_rmdir, p as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if in_sim() {
        return wrap(do_unlink(libc::AT_FDCWD, cstr(p), false)) as c_int;
    }
    ret(raw6(libc::SYS_unlink, p as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if in_sim() {
        return wrap(do_unlink(d, cstr(p), fl & libc::AT_REMOVEDIR != 0)) as c_int;
    }
    ret(raw6(libc::SYS_unlinkat, d as i64, p as i64, fl as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if in_sim() {
        return wrap(do_rename(libc::AT_FDCWD, cstr(a), libc::AT_FDCWD, cstr(b))) as c_int;
    }
    ret(raw6(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    if in_sim() {
        return wrap(do_rename(d1, cstr(a), d2, cstr(b))) as c_int;
    }
    ret(raw6(libc::SYS_renameat, d1 as i64, a as i64, d2 as i64, b as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if in_sim() {
        set_errno(libc::EPERM);
        return -1;
    }
    ret(raw6(libc::SYS_link, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}

// ------------------------------------------------------------------ directories
const DIR_MAGIC: usize = 0x5d10_0000_0000;
unsafe fn dir_from_fd(fd: c_int) -> Result<*mut libc::DIR, i32> {
    let (d, i, p) = {
        let o = ofd_of(fd)?;
        (o.disk, o.ino, o.path.clone())
    };
    disk_op(d, class::READDIR, &p, 0)?;
    let s = sim();
    if !s.disks[d].is_dir(i) {
        return Err(libc::ENOTDIR);
    }
    let h = DIR_MAGIC + fd as usize;
    let mut entries = s.disks[d].list(i);
    // a real directory has no useful order
    if entries.len() > 1 {
        let k = s.rng_os.below(entries.len() as u64) as usize;
        entries.rotate_left(k);
    }
    s.dirs.insert(h, DirStream { entries, pos: 0, fd, ent: Box::new(std::mem::zeroed()) });
    Ok(h as *mut libc::DIR)
}
fn is_sim_dir(d: *mut libc::DIR) -> bool {
    (d as usize) & !0xffff_ffff == DIR_MAGIC
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if in_sim() {
        let r = do_open(libc::AT_FDCWD, cstr(p), libc::O_RDONLY | libc::O_DIRECTORY)
            .and_then(|fd| dir_from_fd(fd).inspect_err(|_| {
                close(fd);
            }));
        return match r {
            Ok(d) => d,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR)(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if fd >= FD_BASE && in_sim() {
        return match dir_from_fd(fd) {
            Ok(d) => d,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    real!("fdopendir", unsafe extern "C" fn(c_int) -> *mut libc::DIR)(fd)
}
macro_rules! readdir_fn {
    ($name:ident, $lit:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(d: *mut libc::DIR) -> *mut libc::dirent64 {
            if is_sim_dir(d) {
                let Some(ds) = sim().dirs.get_mut(&(d as usize)) else {
                    set_errno(libc::EBADF);
                    return std::ptr::null_mut();
                };
                if sim().late_readdir && ds.pos < ds.entries.len() {
                    if let Ok((i, p)) = ofd_of(ds.fd).map(|o| (o.disk, o.path.clone())) {
                        if let Err(e) = disk_op(i, class::READDIR, &p, ds.pos as u64) {
                            set_errno(e);
                            return std::ptr::null_mut();
                        }
                    }
                }
                let Some(ds) = sim().dirs.get_mut(&(d as usize)) else {
                    return std::ptr::null_mut();
                };
                if ds.pos >= ds.entries.len() {
                    return std::ptr::null_mut();
                }
                let (name, ino, dir) = &ds.entries[ds.pos];
                ds.pos += 1;
                let e = &mut *ds.ent;
                e.d_ino = *ino;
                e.d_type = if *dir { libc::DT_DIR } else { libc::DT_REG };
                e.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
                e.d_name.fill(0);
                for (i, b) in encode(name).into_iter().take(255).enumerate() {
                    e.d_name[i] = b as c_char;
                }
                return e;
            }
            real!($lit, unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64)(d)
        }
    };
}
readdir_fn!(readdir, "readdir");
readdir_fn!(readdir64, "readdir64");
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if is_sim_dir(d) {
        if let Some(ds) = sim().dirs.remove(&(d as usize)) {
            return close(ds.fd);
        }
        set_errno(libc::EBADF);
        return -1;
    }
    real!("closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if is_sim_dir(d) {
        return sim().dirs.get(&(d as usize)).map(|x| x.fd).unwrap_or(-1);
    }
    real!("dirfd", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d)
}

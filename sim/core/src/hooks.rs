//! The seams: compiler-inserted yield points, the allocator, and the libc entry points through
//! which Rust code reaches clocks, randomness, the environment and blocking. All of them are
//! pass-through unless the calling thread is a simulated client inside a call (`CTX` is set).
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub const EDGE: usize = 0;
pub const GLOB: usize = 1;
pub const HEAP: usize = 2;
pub const ALLOC: usize = 3;
pub const SYS: usize = 4;
pub const IO: usize = 5;
pub const NCLASS: usize = 6;

pub struct Ctx {
    pub id: usize,
    /// yield points passed by this thread so far
    pub count: u64,
    pub limit: u64,
    /// first count at which the scheduler wants to be asked
    pub next: u64,
    pub cd: [u64; NCLASS],
    /// count at which this thread last got the processor
    pub slice: u64,
    pub random: bool,
    pub stack: (usize, usize),
    pub passed: [u64; NCLASS],
}
thread_local!(static CTX: Cell<*mut Ctx> = const { Cell::new(null_mut()) });

#[inline(always)]
pub fn ctx() -> *mut Ctx {
    CTX.with(|c| c.get())
}
pub fn set_ctx(c: *mut Ctx) -> *mut Ctx {
    CTX.with(|k| k.replace(c))
}
/// leaves the simulation for the lifetime of the guard (simulator code called from a client)
pub struct Pause(*mut Ctx);
pub fn pause() -> Pause {
    Pause(set_ctx(null_mut()))
}
impl Pause {
    pub fn ctx(&self) -> *mut Ctx {
        self.0
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        set_ctx(self.0);
    }
}

// ---- shared (across forks) coverage map -------------------------------------------------
pub const MAPSZ: usize = 1 << 16;
pub static mut COV: *mut u8 = null_mut();
pub static mut NGUARDS: u32 = 0;
pub fn cov_init() {
    unsafe {
        COV = libc::mmap(null_mut(), MAPSZ, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
            as *mut u8;
    }
}
pub fn cov_count() -> usize {
    unsafe { (0..MAPSZ).filter(|i| *COV.add(*i) != 0).count() }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let c = ctx();
    if c.is_null() {
        return;
    }
    let v = COV.add(*g as usize & (MAPSZ - 1));
    *v = (*v).saturating_add(1);
    tick(c, EDGE, *g as usize);
}

static mut GLOBAL_LO: usize = 0;
static mut GLOBAL_HI: usize = 0;
extern "C" {
    static __data_start: u8;
    static _end: u8;
    static mut environ: *const *const i8;
}
pub fn globals_init() {
    unsafe {
        GLOBAL_LO = &__data_start as *const u8 as usize;
        GLOBAL_HI = &_end as *const u8 as usize;
        __sanitizer_cov_trace_pc_guard_init(null_mut(), null_mut());
    }
}

#[inline(always)]
unsafe fn mem(addr: usize) {
    let c = ctx();
    if c.is_null() {
        return;
    }
    if addr >= (*c).stack.0 && addr < (*c).stack.1 {
        return;
    }
    if addr >= GLOBAL_LO && addr < GLOBAL_HI {
        tick(c, GLOB, addr - GLOBAL_LO);
    } else {
        tick(c, HEAP, 0);
    }
}

#[inline(always)]
unsafe fn tick(c: *mut Ctx, class: usize, what: usize) {
    let c = &mut *c;
    c.count += 1;
    c.passed[class] += 1;
    if c.random {
        c.cd[class] -= 1;
        if c.cd[class] != 0 && c.count < c.next {
            return;
        }
    } else if c.count < c.next {
        return;
    }
    slow(c, class, what);
}
#[cold]
#[inline(never)]
unsafe fn slow(c: *mut Ctx, class: usize, what: usize) {
    let p = pause();
    sched::at_yield(&mut *c, class, what);
    drop(p);
}
/// A yield point placed by simulator code (I/O callbacks).
pub fn yield_io() {
    let c = ctx();
    if !c.is_null() {
        unsafe { tick(c, IO, 0) }
    }
}

macro_rules! memhooks { ($($f:ident),*) => { $(#[no_mangle] pub unsafe extern "C" fn $f(a: usize) { mem(a) })* } }
memhooks!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8,
    __sanitizer_cov_store16
);

// ---- allocator ---------------------------------------------------------------------------
pub struct SimAlloc;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
/// 0 = leave fresh memory as it comes
pub static FILL: AtomicU64 = AtomicU64::new(0);
static FILLPOS: AtomicU64 = AtomicU64::new(0);
pub static FILLED: AtomicU64 = AtomicU64::new(0);

/// Memory patterns: the low byte selects the kind, the rest seeds it.
pub unsafe fn fill(p: *mut u8, n: usize, pat: u64) {
    let kind = pat & 0xff;
    let mut x = crate::rng::mix(pat ^ FILLPOS.fetch_add(1, Relaxed));
    match kind {
        0 => {}
        1 => std::ptr::write_bytes(p, 0, n),
        2 => std::ptr::write_bytes(p, 0xff, n),
        _ => {
            for i in 0..n {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                let b = (x >> 24) as u8;
                *p.add(i) = match kind {
                    3 => b'0' + b % 10,
                    4 => b % 9,
                    5 => b' ' + b % 94,
                    6 => b"bcadgopmTt -:.+"[b as usize % 15],
                    _ => b,
                };
            }
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        LIVE.fetch_add(l.size() as i64, Relaxed);
        let c = ctx();
        if !c.is_null() {
            ALLOCS.fetch_add(1, Relaxed);
            let pat = FILL.load(Relaxed);
            if pat != 0 {
                FILLED.fetch_add(1, Relaxed);
                fill(p, l.size(), pat);
            }
            tick(c, ALLOC, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = ctx();
        if !c.is_null() {
            let pat = FILL.load(Relaxed);
            if pat != 0 {
                fill(p, l.size(), pat);
            }
            tick(c, ALLOC, l.size());
        }
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ctx().is_null() || FILL.load(Relaxed) == 0 {
            LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
            return System.realloc(p, l, n);
        }
        // under a memory pattern every reallocation moves
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
        self.dealloc(p, l);
        q
    }
}
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

/// Fills the stack region the next call will use.
#[inline(never)]
pub fn poison_stack(pat: u64) {
    if pat == 0 {
        return;
    }
    let mut a = std::mem::MaybeUninit::<[u8; 64 * 1024]>::uninit();
    unsafe {
        fill(a.as_mut_ptr() as *mut u8, 64 * 1024, pat);
    }
    std::hint::black_box(&mut a);
}

/// Runs `f` with the stack at a given place in its page (in units of 16 bytes), whatever the depth
/// of the caller and wherever the system put the stack.
pub fn placed(at: u8, f: &mut dyn FnMut()) {
    #[inline(never)]
    fn frame<const N: usize>(f: &mut dyn FnMut()) {
        let mut a = std::mem::MaybeUninit::<[u8; N]>::uninit();
        std::hint::black_box(&mut a);
        f();
        std::hint::black_box(&mut a);
    }
    macro_rules! table {
        ($($n:literal)*) => {
            ([$(frame::<{ 256 * $n + 16 }> as fn(&mut dyn FnMut())),*], [$(frame::<{ 16 * $n + 16 }> as fn(&mut dyn FnMut())),*])
        };
    }
    let (big, small) = table!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    #[inline(never)]
    fn leaf(probe: &mut usize, f: Option<&mut dyn FnMut()>) {
        let x = 0u64;
        *probe = std::hint::black_box(&x) as *const u64 as usize;
        if let Some(f) = f {
            f();
        }
    }
    let mut go = |a: usize, b: usize, f: Option<&mut dyn FnMut()>| {
        let (mut p, mut f) = (0, f);
        big[a](&mut || small[b](&mut || leaf(&mut p, f.take())));
        p
    };
    let by = go(0, 0, None).wrapping_sub(at as usize * 16) >> 4 & 255;
    let p = go(by >> 4, by & 15, Some(f));
    debug_assert_eq!(p >> 4 & 255, at as usize);
}

// ---- raw system calls (never interposed) --------------------------------------------------
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
pub fn raw_wait(w: &std::sync::atomic::AtomicU32, v: u32) {
    unsafe {
        raw(libc::SYS_futex, w as *const _ as usize, 128, v as usize, 0, 0, 0);
    }
}
pub fn raw_wake(w: &std::sync::atomic::AtomicU32) {
    unsafe {
        raw(libc::SYS_futex, w as *const _ as usize, 129, 1, 0, 0, 0);
    }
}

// ---- interposed libc ----------------------------------------------------------------------
/// The ambient world of a run: what clocks, randomness and the environment say.
pub struct Ambient {
    pub seed: u64,
    pub wild: bool,
    pub n: u64,
    pub clock_reads: u64,
    pub env_reads: u64,
    pub rand_reads: u64,
    pub other: u64,
    pub files: u64,
    /// how far the monotonic clock is ahead of the schedule
    pub mono: u64,
}
pub static mut AMB: Ambient =
    Ambient { seed: 0, wild: false, n: 0, clock_reads: 0, env_reads: 0, rand_reads: 0, other: 0, files: 0, mono: 0 };
#[allow(static_mut_refs)]
pub fn amb() -> &'static mut Ambient {
    unsafe { &mut AMB }
}
fn amb_next() -> u64 {
    let a = amb();
    a.n += 1;
    crate::rng::mix(a.seed ^ a.n.wrapping_mul(0x9e3779b97f4a7c15))
}
/// nanoseconds; simulated time advances with the schedule, and jumps if the world is wild
pub fn sim_now() -> u64 {
    amb().clock_reads += 1;
    let base = 1_700_000_000_000_000_000u64 + sched::clock();
    if !amb().wild {
        return base;
    }
    let x = amb_next();
    match x % 8 {
        0 => x >> 3 & 0x3fff_ffff_ffff,                   // 1970
        1 => 951_782_400_000_000_000 + (x >> 8) % DAYNS,  // 29 Feb 2000
        2 => 1_077_926_399_000_000_000 + (x >> 8) % 2_000_000_000, // end of Feb 2004
        3 => 4_102_444_800_000_000_000 + (x >> 8) % DAYNS, // 2100
        4 => 946_684_799_000_000_000 + (x >> 8) % 2_000_000_000, // the turn of 2000
        5 => base - (x >> 8) % (400 * DAYNS),
        6 => base + (x >> 8) % (40_000 * DAYNS),
        _ => base,
    }
}
const DAYNS: u64 = 86_400_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if ctx().is_null() {
        return ret(raw(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as i32;
    }
    let t = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        sim_now()
    } else {
        let a = amb();
        a.clock_reads += 1;
        if a.wild {
            // a process may be suspended between any two looks at the clock
            let x = amb_next();
            amb().mono += match x % 8 {
                0 => (x >> 8) % 1_000,
                1 => (x >> 8) % 1_000_000,
                2 => (x >> 8) % 1_000_000_000,
                3 => (x >> 8) % 60_000_000_000,
                4 => (x >> 8) % (30 * DAYNS),
                _ => 0,
            };
        }
        1_000_000_000_000 + sched::clock() + amb().mono
    };
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut u8) -> i32 {
    if ctx().is_null() {
        return ret(raw(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0)) as i32;
    }
    let t = sim_now();
    (*tv).tv_sec = (t / 1_000_000_000) as i64;
    (*tv).tv_usec = (t % 1_000_000_000 / 1000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *const i8 {
    if !ctx().is_null() {
        amb().env_reads += 1;
        if amb().wild {
            let vals: [&[u8]; 16] = [
                b"\0", b"0\0", b"1\0", b"UTC\0", b"America/New_York\0", b"DMY\0", b"MDY\0", b"YMD\0", b"ISO\0", b"SQL\0",
                b"German\0", b"PST8PDT\0", b"tr_TR.UTF-8\0", b"de_DE\0", b"true\0", b"-1\0",
            ];
            let x = amb_next() % 18;
            return if x < 16 { vals[x as usize].as_ptr() as *const i8 } else { std::ptr::null() };
        }
        return std::ptr::null();
    }
    let n = libc::strlen(name as *const _);
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null();
    }
    while !(*e).is_null() {
        let s = *e;
        if libc::strncmp(s as *const _, name as *const _, n) == 0 && *s.add(n) == b'=' as i8 {
            return s.add(n + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn secure_getenv(name: *const i8) -> *const i8 {
    getenv(name)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    if ctx().is_null() && !sched::in_child() {
        return ret(raw(libc::SYS_getrandom, p as usize, n, fl as usize, 0, 0, 0)) as isize;
    }
    amb().rand_reads += 1;
    for i in 0..n {
        *p.add(i) = amb_next() as u8;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if ctx().is_null() {
        return raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32;
    }
    amb().other += 1;
    if amb().wild {
        1 + (amb_next() % 4_000_000) as i32
    } else {
        4242
    }
}
const ZONES: [&str; 8] =
    ["America/New_York", "Asia/Kolkata", "Pacific/Apia", "Europe/London", "PST8PDT", "UTC", "Australia/Lord_Howe", "Asia/Tokyo"];
/// What a file of a wild world holds.
fn file_content() -> Vec<u8> {
    let x = amb_next();
    let y = amb_next();
    let pick = |v: &[&str]| v[y as usize % v.len()].to_string();
    match x % 12 {
        0 | 1 => format!("{}\n", y % 8),
        2 => pick(&["50", "-1", "69", "12", "1000", "true", "false", "0.5\n"]),
        3 => pick(&["DMY", "MDY\n", "YMD", "dmy\n", "German, DMY\n", "ISO, MDY", "SQL", "postgres\n", "iso_8601", "sql_standard"]),
        4 => format!("{}\n", ZONES[y as usize % 8]),
        5 | 6 => format!(
            "datestyle = {}\norder = {}\nintervalstyle = {}\ntimezone = {}\nprecision = {}\npivot = {}\n",
            ["ISO", "German", "SQL"][y as usize % 3],
            ["DMY", "MDY", "YMD"][(y >> 8) as usize % 3],
            ["postgres", "iso_8601", "sql_standard"][(y >> 16) as usize % 3],
            ZONES[(y >> 24) as usize % 8],
            (y >> 32) % 7,
            (y >> 40) % 100
        ),
        7 => format!("{{\"order\":\"{}\",\"precision\":{},\"zone\":\"{}\"}}", ["DMY", "MDY"][y as usize % 2], y % 7, ZONES[(y >> 8) as usize % 8]),
        8 | 9 => {
            // a time zone file: one fixed offset
            let off = ((y % 49) as i32 - 24) * 1800;
            let mut v = b"TZif2".to_vec();
            v.extend([0; 15]);
            let mut body = vec![];
            for n in [0u32, 0, 0, 0, 1, 4] {
                body.extend(n.to_be_bytes());
            }
            body.extend(off.to_be_bytes());
            body.extend([0, 0]);
            body.extend(b"XYZ\0");
            v.extend(&body);
            v.extend(b"TZif2");
            v.extend([0; 15]);
            v.extend(&body);
            v.extend(format!("\n<XYZ>{:+}\n", -off / 3600).bytes());
            return v;
        }
        10 => String::new(),
        _ => return (0..y % 64).map(|i| crate::rng::mix(y ^ i) as u8).collect(),
    }
    .into_bytes()
}
/// The file system as seen from inside a call: nothing there, or, in a wild world, perhaps anything.
unsafe fn sim_open() -> i32 {
    let a = amb();
    a.other += 1;
    if a.wild {
        match amb_next() % 8 {
            0 => {
                *libc::__errno_location() = libc::EIO;
                return -1;
            }
            1 => {
                *libc::__errno_location() = libc::EACCES;
                return -1;
            }
            2 => {}
            _ => {
                let fd = raw(libc::SYS_memfd_create, b"w\0".as_ptr() as usize, 1, 0, 0, 0, 0);
                if fd >= 0 {
                    let _p = pause();
                    let b = file_content();
                    raw(libc::SYS_pwrite64, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0);
                    amb().files += 1;
                    return fd as i32;
                }
            }
        }
    }
    *libc::__errno_location() = libc::ENOENT;
    -1
}
unsafe fn open_real(path: *const i8, flags: i32, mode: u32) -> i32 {
    if !ctx().is_null() {
        return sim_open();
    }
    ret(raw(libc::SYS_openat, libc::AT_FDCWD as isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    if !ctx().is_null() {
        return sim_open();
    }
    ret(raw(libc::SYS_openat, dir as isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    openat(dir, path, flags, mode)
}
/// questions about files by name: answered from the seed in a wild world
unsafe fn sim_exists() -> bool {
    let a = amb();
    a.other += 1;
    if a.wild && amb_next() % 2 == 0 {
        return true;
    }
    *libc::__errno_location() = libc::ENOENT;
    false
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const i8, mode: i32) -> i32 {
    if !ctx().is_null() {
        return if sim_exists() { 0 } else { -1 };
    }
    ret(raw(libc::SYS_access, path as usize, mode as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const i8, fl: i32, mask: u32, out: *mut libc::statx) -> i32 {
    if !ctx().is_null() && *path != 0 {
        if !sim_exists() {
            return -1;
        }
        std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*out).stx_mask = mask & 0xfff;
        (*out).stx_mode = if amb_next() % 4 == 0 { libc::S_IFDIR as u16 | 0o755 } else { libc::S_IFREG as u16 | 0o644 };
        (*out).stx_size = amb_next() % 4096;
        (*out).stx_mtime.tv_sec = (amb_next() % 4_000_000_000) as i64;
        (*out).stx_btime.tv_sec = (amb_next() % 4_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_statx, dir as isize as usize, path as usize, fl as usize, mask as usize, out as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const i8, buf: *mut u8, n: usize) -> isize {
    if !ctx().is_null() {
        if !sim_exists() {
            return -1;
        }
        let _p = pause();
        let s = format!("/usr/share/zoneinfo/{}", ZONES[amb_next() as usize % 8]);
        let k = s.len().min(n);
        std::ptr::copy_nonoverlapping(s.as_ptr(), buf, k);
        return k as isize;
    }
    ret(raw(libc::SYS_readlink, path as usize, buf as usize, n, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const i8) -> *mut u8 {
    extern "C" {
        fn fdopendir(fd: i32) -> *mut u8;
    }
    if !ctx().is_null() {
        amb().other += 1;
        *libc::__errno_location() = if amb().wild && amb_next() % 2 == 0 { libc::EACCES } else { libc::ENOENT };
        return null_mut();
    }
    let fd = open_real(path, libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC, 0);
    if fd < 0 {
        null_mut()
    } else {
        fdopendir(fd)
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut i8, n: usize) -> *mut i8 {
    if !ctx().is_null() && !buf.is_null() {
        amb().other += 1;
        let x = if amb().wild { amb_next() % 4 } else { 0 };
        let s: &[u8] = [&b"/\0"[..], b"/home/user/DMY\0", b"/etc\0", b"/var/lib/app-1999\0"][x as usize];
        if n < s.len() {
            *libc::__errno_location() = libc::ERANGE;
            return null_mut();
        }
        std::ptr::copy_nonoverlapping(s.as_ptr() as *const i8, buf, s.len());
        return buf;
    }
    if ret(raw(libc::SYS_getcwd, buf as usize, n, 0, 0, 0, 0)) < 0 {
        null_mut()
    } else {
        buf
    }
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(buf: *mut u8, n: usize) -> i32 {
    let x = if ctx().is_null() { 0 } else { amb().other += 1; if amb().wild { amb_next() % 3 } else { 0 } };
    let s: &[u8] = [&b"host\0"[..], b"db-7\0", b"prod.eu.example\0"][x as usize];
    std::ptr::copy_nonoverlapping(s.as_ptr(), buf, s.len().min(n));
    0
}
macro_rules! ids { ($($f:ident $n:ident),*) => { $(#[no_mangle] pub unsafe extern "C" fn $f() -> u32 {
    if ctx().is_null() {
        return raw(libc::$n, 0, 0, 0, 0, 0, 0) as u32;
    }
    amb().other += 1;
    if amb().wild { (amb_next() % 70_000) as u32 } else { 1000 }
})* } }
ids!(getuid SYS_getuid, geteuid SYS_geteuid, getgid SYS_getgid, getppid SYS_getppid);
/// how many processors there are
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut libc::cpu_set_t) -> i32 {
    if ctx().is_null() {
        let r = raw(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0);
        if r < 0 {
            return ret(r) as i32;
        }
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n.saturating_sub(r as usize));
        return 0;
    }
    amb().other += 1;
    std::ptr::write_bytes(set as *mut u8, 0, n);
    let k = if amb().wild { 1 + amb_next() % 64 } else { 4 };
    for i in 0..k as usize {
        libc::CPU_SET(i, &mut *set);
    }
    0
}
/// local time: UTC, or in a wild world any offset
unsafe fn zone_offset() -> i64 {
    amb().env_reads += 1;
    if amb().wild {
        (amb_next() % 113) as i64 * 900 - 43_200
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn localtime_r(t: *const i64, out: *mut libc::tm) -> *mut libc::tm {
    let off = if ctx().is_null() { 0 } else { zone_offset() };
    let x = *t + off;
    libc::gmtime_r(&x, out);
    (*out).tm_gmtoff = off;
    out
}
static mut TM: std::mem::MaybeUninit<libc::tm> = std::mem::MaybeUninit::uninit();
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn localtime(t: *const i64) -> *mut libc::tm {
    localtime_r(t, TM.as_mut_ptr())
}
#[no_mangle]
pub unsafe extern "C" fn mktime(tm: *mut libc::tm) -> i64 {
    let off = if ctx().is_null() { 0 } else { zone_offset() };
    libc::timegm(tm) - off
}
#[no_mangle]
pub unsafe extern "C" fn rand() -> i32 {
    amb().rand_reads += 1;
    (amb_next() & 0x7fff_ffff) as i32
}
#[no_mangle]
pub unsafe extern "C" fn random() -> i64 {
    rand() as i64
}
/// The environment block as std::env::vars and libc's own code see it.
pub fn set_world(wild: bool) {
    let mut v: Vec<*const i8> = vec![];
    if wild {
        let pick = |o: &[&str]| o[amb_next() as usize % o.len()].to_string();
        for k in [
            "TZ", "LANG", "LC_ALL", "LC_TIME", "PGTZ", "PGDATESTYLE", "DATESTYLE", "PGINTERVALSTYLE", "HOME", "USER", "RUST_LOG", "PGOPTIONS",
        ] {
            if amb_next() % 4 == 0 {
                continue;
            }
            let val = if k.starts_with('L') {
                pick(&["C", "de_DE.UTF-8", "tr_TR.UTF-8", "en_US", "ja_JP", ""])
            } else if k.contains("TZ") {
                pick(&[&ZONES[..], &["", ":UTC", "XYZ+5", "-1"]].concat())
            } else {
                pick(&["DMY", "MDY", "YMD", "ISO, DMY", "German", "SQL", "1", "0", "true", "", "iso_8601", "debug", "-c datestyle=sql"])
            };
            let s = format!("{k}={val}\0").into_bytes();
            v.push(Box::leak(s.into_boxed_slice()).as_ptr() as *const i8);
        }
    }
    v.push(std::ptr::null());
    unsafe { environ = Box::leak(v.into_boxed_slice()).as_ptr() };
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
    open_real(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    open_real(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let c = ctx();
    if c.is_null() {
        return raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32;
    }
    (*c).count += 1;
    let _p = pause();
    sched::yield_now(&mut *c);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    let c = ctx();
    if c.is_null() {
        return ret(raw(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0)) as i32;
    }
    (*c).count += 1;
    let _p = pause();
    sched::sleep(&mut *c, (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    let c = ctx();
    if c.is_null() {
        return -raw(libc::SYS_clock_nanosleep, id as usize, fl as usize, a as usize, b as usize, 0, 0) as i32;
    }
    (*c).count += 1;
    let _p = pause();
    let mut ns = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
    if fl & libc::TIMER_ABSTIME != 0 {
        ns = ns.saturating_sub(1_000_000_000_000 + sched::clock());
    }
    sched::sleep(&mut *c, ns);
    0
}

/// std reaches futexes (Mutex, RwLock, Condvar, Once, park) and getrandom through this symbol.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, cc: usize, d: usize, e: usize, f: usize) -> i64 {
    let c = ctx();
    if c.is_null() {
        if n == libc::SYS_getrandom && sched::in_child() {
            return getrandom(a as *mut u8, b, cc as u32) as i64;
        }
        return ret(raw(n, a, b, cc, d, e, f));
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b, cc as u32) as i64;
    }
    if n != libc::SYS_futex {
        amb().other += 1;
        return ret(raw(n, a, b, cc, d, e, f));
    }
    (*c).count += 1;
    let _p = pause();
    let op = b & 0x7f;
    match op {
        0 | 9 => {
            if *(a as *const u32) != cc as u32 {
                return ret(-(libc::EAGAIN as i64));
            }
            let deadline = if d == 0 {
                None
            } else {
                let ts = &*(d as *const libc::timespec);
                let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                // FUTEX_WAIT_BITSET takes absolute monotonic time, FUTEX_WAIT relative
                Some(if op == 9 { ns.saturating_sub(1_000_000_000_000) } else { sched::clock() + ns })
            };
            if sched::futex_wait(&mut *c, a, deadline) {
                0
            } else {
                ret(-(libc::ETIMEDOUT as i64))
            }
        }
        1 | 10 => sched::futex_wake(&mut *c, a, cc),
        _ => ret(raw(n, a, b, cc, d, e, f)),
    }
}

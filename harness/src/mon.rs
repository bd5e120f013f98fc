//! Monitors around the crate under test: reader, allocator, panics, threads, and the decode wrapper.
use crate::rng::Rng;
use jpeg_decoder::{ColorTransform, Decoder, Error, ImageInfo, UnsupportedFeature};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{self, ErrorKind, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::Mutex;

// ---------------------------------------------------------------- allocator

pub struct Counting;
pub static CUR: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
/// When set, allocator calls perturb the schedule and log which thread made them.
pub static CHAOS: AtomicBool = AtomicBool::new(false);
static CHAOS_SEED: AtomicU64 = AtomicU64::new(1);
static SCHED_HASH: AtomicU64 = AtomicU64::new(0);
static SCHED_EVENTS: AtomicU64 = AtomicU64::new(0);
static STALL_US: AtomicU64 = AtomicU64::new(0);
static STALL_AT: AtomicI64 = AtomicI64::new(0);
static STALL_TID: AtomicU64 = AtomicU64::new(0);
static STALLED: AtomicU64 = AtomicU64::new(0);
static NEXT_TID: AtomicU64 = AtomicU64::new(1);

thread_local! {
    static TID: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

extern "C" {
    fn sched_yield() -> i32;
}

fn chaos(size: usize) {
    if size < 64 {
        return;
    }
    let tid = TID
        .try_with(|t| {
            if t.get() == 0 {
                t.set(NEXT_TID.fetch_add(1, Relaxed));
            }
            t.get()
        })
        .unwrap_or(0);
    let n = SCHED_EVENTS.fetch_add(1, Relaxed);
    let us = STALL_US.load(Relaxed);
    if us > 0 && tid >= STALL_TID.load(Relaxed) && STALL_AT.fetch_sub(1, Relaxed) == 0 {
        STALLED.fetch_add(1, Relaxed);
        std::thread::sleep(std::time::Duration::from_micros(us));
    }
    let h = SCHED_HASH.load(Relaxed);
    SCHED_HASH.store(crate::rng::mix(h ^ tid.wrapping_mul(0x9E37)), Relaxed);
    let r = crate::rng::mix(CHAOS_SEED.load(Relaxed) ^ n.wrapping_mul(0x2545F4914F6CDD1D) ^ tid);
    if r & 7 == 0 {
        unsafe { sched_yield() };
    } else if r & 63 == 1 {
        let k = (r >> 8) % 3000;
        for _ in 0..k {
            std::hint::spin_loop();
        }
    }
}

/// Start perturbing; the returned hash of the allocation interleaving is read by `chaos_stop`.
pub fn chaos_start(seed: u64) {
    CHAOS_SEED.store(seed, Relaxed);
    SCHED_HASH.store(0, Relaxed);
    SCHED_EVENTS.store(0, Relaxed);
    NEXT_TID.store(1, Relaxed);
    CHAOS.store(true, SeqCst);
}
/// While perturbing: the `at`-th allocator call by a thread numbered `tid` or higher sleeps so long (0: none does).
pub fn stall(us: u64, at: u64, tid: u64) -> u64 {
    STALL_AT.store(at as i64, SeqCst);
    STALL_TID.store(tid, SeqCst);
    STALL_US.store(us, SeqCst);
    STALLED.swap(0, SeqCst)
}
pub fn chaos_stop() -> (u64, u64) {
    CHAOS.store(false, SeqCst);
    (SCHED_HASH.load(Relaxed), SCHED_EVENTS.load(Relaxed))
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if CHAOS.load(Relaxed) {
            chaos(l.size());
        }
        let p = System.alloc(l);
        if !p.is_null() {
            account(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if CHAOS.load(Relaxed) {
            chaos(l.size());
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            account(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        CUR.fetch_sub(l.size() as i64, Relaxed);
        if CHAOS.load(Relaxed) {
            chaos(l.size());
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            account(n as i64 - l.size() as i64);
        }
        q
    }
}
fn account(d: i64) {
    let c = CUR.fetch_add(d, Relaxed) + d;
    PEAK.fetch_max(c, Relaxed);
    ALLOCS.fetch_add(1, Relaxed);
}
/// Reset the peak and return the current level.
pub fn mem_mark() -> i64 {
    let c = CUR.load(SeqCst);
    PEAK.store(c, SeqCst);
    c
}
pub fn mem_peak() -> i64 {
    PEAK.load(SeqCst)
}
pub fn mem_cur() -> i64 {
    CUR.load(SeqCst)
}

// ---------------------------------------------------------------- panics

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(payload)".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut v = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if v.len() < 50 {
            v.push(format!("{m} at {l}"));
        }
    }));
}
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

// ---------------------------------------------------------------- outcomes

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Vec<u8>),
    Format(String),
    Unsup(UnsupportedFeature),
    Io(ErrorKind),
    Internal(String),
    Panic(String),
}

impl Out {
    pub fn of(r: Result<Vec<u8>, Error>) -> Out {
        match r {
            Ok(v) => Out::Ok(v),
            Err(e) => Out::err(e),
        }
    }
    pub fn err(e: Error) -> Out {
        match e {
            Error::Format(s) => Out::Format(s),
            Error::Unsupported(f) => Out::Unsup(f),
            Error::Io(e) => Out::Io(e.kind()),
            Error::Internal(e) => Out::Internal(e.to_string()),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn short(&self) -> String {
        match self {
            Out::Ok(v) => format!("Ok({} bytes, {:016x})", v.len(), crate::rng::hash(v)),
            o => format!("{o:?}"),
        }
    }
    /// Variant only: what a caller may rely on (messages may be reworded).
    pub fn class(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Format(_) => "format".into(),
            Out::Unsup(f) => format!("unsupported {f:?}"),
            Out::Io(k) => format!("io {k:?}"),
            Out::Internal(_) => "internal".into(),
            Out::Panic(_) => "panic".into(),
        }
    }
    /// Same value, or the same class of error.
    pub fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Ok(a), Out::Ok(b)) => a == b,
            _ => self.class() == o.class(),
        }
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    take_panics();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panics().join(" | "))
}

#[derive(Clone, Debug, Default)]
pub struct Req {
    pub transform: Option<ColorTransform>,
    pub limit: Option<usize>,
    pub scale: Option<(u16, u16)>,
    pub info_first: bool,
    /// limits set before `limit`, the odd ones after reading the metadata
    pub earlier: Vec<usize>,
    /// set `transform` just before decoding, after this one (if any) at the beginning
    pub late: Option<Option<ColorTransform>>,
}

#[derive(Clone, Debug)]
pub struct Dec {
    pub out: Out,
    pub info: Option<ImageInfo>,
    pub scaled: Option<(u16, u16)>,
    pub exif: Option<Vec<u8>>,
    pub xmp: Option<Vec<u8>>,
    pub icc: Option<Vec<u8>>,
}

impl Dec {
    pub fn pixels(&self) -> Result<&[u8], String> {
        match &self.out {
            Out::Ok(v) => Ok(v),
            o => Err(format!("decoding failed: {}", o.short())),
        }
    }
}

pub fn decode_from<R: Read>(r: R, q: &Req) -> Dec {
    let mut d = Decoder::new(r);
    let mut scaled = None;
    let res = guard(|| {
        if let Some(t) = q.late.unwrap_or(q.transform) {
            d.set_color_transform(t);
        }
        if let Some(l) = q.earlier.first() {
            d.set_max_decoding_buffer_size(*l);
        }
        if q.earlier.len() < 2 {
            if let Some(l) = q.limit {
                d.set_max_decoding_buffer_size(l);
            }
        }
        if q.info_first {
            if let Err(e) = d.read_info() {
                return Out::err(e);
            }
        }
        if let Some(l) = q.earlier.get(1) {
            d.set_max_decoding_buffer_size(*l);
            if let Some(l) = q.limit {
                d.set_max_decoding_buffer_size(l);
            }
        }
        if let Some((w, h)) = q.scale {
            match d.scale(w, h) {
                Ok(s) => scaled = Some(s),
                Err(e) => return Out::err(e),
            }
        }
        if let (Some(t), true) = (q.transform, q.late.is_some()) {
            d.set_color_transform(t);
        }
        Out::of(d.decode())
    });
    let out = match res {
        Ok(o) => o,
        Err(p) => return Dec { out: Out::Panic(p), info: None, scaled: None, exif: None, xmp: None, icc: None },
    };
    let meta = guard(|| (d.info(), d.exif_data().map(|x| x.to_vec()), d.xmp_data().map(|x| x.to_vec()), d.icc_profile()));
    match meta {
        Ok((info, exif, xmp, icc)) => Dec { out, info, scaled, exif, xmp, icc },
        Err(p) => Dec { out: Out::Panic(p), info: None, scaled, exif: None, xmp: None, icc: None },
    }
}

pub fn decode(b: &[u8]) -> Dec {
    decode_from(b, &Req::default())
}

// ---------------------------------------------------------------- reader

#[derive(Clone, Debug)]
pub enum Chunk {
    All,
    One,
    Random(u64),
}

/// A reader that delivers `data` by a plan, logs what is asked, and fails where told.
pub struct MonReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunk: Chunk,
    pub rng: Rng,
    /// chance of an Interrupted error before each read, in 256ths
    pub interrupt: usize,
    /// from this position on, reads fail with this kind (`true`: only once)
    pub fault: Option<(usize, ErrorKind, bool)>,
    /// panic instead when this position is reached
    pub panic_at: Option<usize>,
    /// payload check: custom error text
    pub yields: bool,
    /// sleep for so many microseconds when this position is reached
    pub stall: Option<(usize, u64)>,
    pub reads: u64,
    /// panic after so many reads: ends a caller that would never stop
    pub budget: u64,
    pub zero_reads: u64,
    pub fault_reads: u64,
    pub interrupts: u64,
    pub largest: usize,
    /// the position, readable while a decoder holds the reader
    pub shared: std::sync::Arc<std::sync::atomic::AtomicUsize>,
}

impl<'a> MonReader<'a> {
    pub fn new(data: &'a [u8]) -> MonReader<'a> {
        MonReader {
            data,
            pos: 0,
            chunk: Chunk::All,
            rng: Rng::new(7),
            interrupt: 0,
            fault: None,
            panic_at: None,
            yields: false,
            stall: None,
            reads: 0,
            budget: u64::MAX,
            zero_reads: 0,
            fault_reads: 0,
            interrupts: 0,
            largest: 0,
            shared: Default::default(),
        }
    }
}

impl Read for MonReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.reads > self.budget {
            panic!("too many reads");
        }
        self.largest = self.largest.max(buf.len());
        if self.yields {
            match self.rng.below(40) {
                0 => std::thread::yield_now(),
                1 => {
                    for _ in 0..self.rng.below(4000) {
                        std::hint::spin_loop()
                    }
                }
                _ => {}
            }
        }
        if let Some((p, us)) = self.stall {
            if self.pos >= p {
                self.stall = None;
                std::thread::sleep(std::time::Duration::from_micros(us));
            }
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupt > 0 && self.rng.below(256) < self.interrupt {
            self.interrupts += 1;
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        if let Some(p) = self.panic_at {
            if self.pos >= p {
                panic!("reader panics as planned");
            }
        }
        let mut end = self.data.len();
        if let Some((p, kind, once)) = self.fault {
            if self.pos >= p {
                self.fault_reads += 1;
                if once {
                    self.fault = None;
                }
                return Err(io::Error::new(kind, "planned fault"));
            }
            end = end.min(p);
        }
        if let Some(p) = self.panic_at {
            end = end.min(p);
        }
        let avail = end.saturating_sub(self.pos);
        let mut n = buf.len().min(avail);
        if n == 0 {
            self.zero_reads += 1;
            return Ok(0);
        }
        match self.chunk {
            Chunk::All => {}
            Chunk::One => n = 1,
            Chunk::Random(m) => n = n.min(1 + self.rng.below(m as usize)),
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.shared.store(self.pos, Relaxed);
        Ok(n)
    }
}

// ---------------------------------------------------------------- threads

/// Number of threads of this process.
pub fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

/// Wait until at most `n` threads are left; false when the bound is not reached in `ms` milliseconds.
pub fn wait_threads(n: usize, ms: u64) -> bool {
    let t = std::time::Instant::now();
    loop {
        if threads() <= n {
            return true;
        }
        if t.elapsed().as_millis() as u64 > ms {
            return false;
        }
        std::thread::sleep(std::time::Duration::from_micros(300));
    }
}

// ---------------------------------------------------------------- thread starts

/// Threads this process has started (counted where `pthread_create` can be observed).
pub static SPAWNED: AtomicU64 = AtomicU64::new(0);
pub const CAN_FAIL_SPAWN: bool = cfg!(feature = "faults");
static SPAWN_FUSE: AtomicI64 = AtomicI64::new(i64::MIN);
static SPAWN_REFUSED: AtomicU64 = AtomicU64::new(0);

/// Let the `k`-th thread start from now on (counted from 0) and all later ones fail.
pub fn fail_spawn(k: i64) {
    SPAWN_REFUSED.store(0, SeqCst);
    SPAWN_FUSE.store(k, SeqCst);
}
/// End the fault; the number of starts refused.
pub fn fail_spawn_off() -> u64 {
    SPAWN_FUSE.store(i64::MIN, SeqCst);
    SPAWN_REFUSED.swap(0, SeqCst)
}

static SPAWN_DELAY: AtomicU64 = AtomicU64::new(0);
static SPAWN_DELAYED: AtomicU64 = AtomicU64::new(0);

/// Threads started from now on sleep for up to so many microseconds before they run (0: they do not).
pub fn delay_spawn(us: u64) {
    SPAWN_DELAY.store(us, SeqCst);
}
pub fn spawns_delayed() -> u64 {
    SPAWN_DELAYED.swap(0, SeqCst)
}

#[cfg(feature = "faults")]
mod spawn {
    use super::*;
    use std::ffi::c_void;
    type Create = unsafe extern "C" fn(*mut c_void, *const c_void, *const c_void, *mut c_void) -> i32;
    extern "C" {
        fn dlsym(handle: *mut c_void, name: *const u8) -> *mut c_void;
    }
    /// Stands before the C library's function of that name.
    #[no_mangle]
    pub unsafe extern "C" fn pthread_create(t: *mut c_void, a: *const c_void, f: *const c_void, x: *mut c_void) -> i32 {
        let fuse = SPAWN_FUSE.load(SeqCst);
        if fuse != i64::MIN {
            if fuse <= 0 {
                SPAWN_REFUSED.fetch_add(1, SeqCst);
                return 11; // EAGAIN
            }
            SPAWN_FUSE.store(fuse - 1, SeqCst);
        }
        let nth = SPAWNED.fetch_add(1, SeqCst);
        let real = dlsym(-1isize as *mut c_void, b"pthread_create\0".as_ptr());
        let real: Create = std::mem::transmute(real);
        let us = SPAWN_DELAY.load(SeqCst);
        if us > 0 {
            SPAWN_DELAYED.fetch_add(1, SeqCst);
            let f: Start = std::mem::transmute(f);
            let late = Box::new(Late { f, x, us: crate::rng::mix(nth ^ us) % us });
            let r = real(t, a, start_late as *const c_void, Box::into_raw(late) as *mut c_void);
            return r;
        }
        real(t, a, f, x)
    }
    type Start = unsafe extern "C" fn(*mut c_void) -> *mut c_void;
    struct Late {
        f: Start,
        x: *mut c_void,
        us: u64,
    }
    unsafe extern "C" fn start_late(p: *mut c_void) -> *mut c_void {
        let l = Box::from_raw(p as *mut Late);
        let (f, x, us) = (l.f, l.x, l.us);
        drop(l);
        std::thread::sleep(std::time::Duration::from_micros(us));
        f(x)
    }
}

//! Harness intrinsics. In the symbolic executor the `__sym_*` functions are intercepted; the
//! bodies below are used when the same binary replays a recorded assignment natively.
use std::hint::black_box;
use std::io::Write;
use std::sync::Mutex;

struct Native {
    trace: Vec<u64>,
    pos: usize,
    params: Vec<i64>,
    out: String,
    allow: bool,
    stdout_file: Option<std::path::PathBuf>,
    scale: f64,
}
static N: Mutex<Option<Native>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut Native) -> R) -> R {
    let _b = Busy::new();
    let mut g = N.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("native runtime not initialised"))
}
struct Busy(bool);
impl Busy {
    fn new() -> Busy {
        unsafe {
            let b = Busy(BUSY);
            BUSY = true;
            b
        }
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        unsafe { BUSY = self.0 }
    }
}
fn next() -> u64 {
    with(|n| {
        let r = n.trace.get(n.pos).copied().unwrap_or(0);
        n.pos += 1;
        r
    })
}
fn emit(s: &str) {
    let _b = Busy::new();
    // results go to a file so that the code under test may use stdout
    with(|n| {
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(&n.out) {
            let _ = writeln!(f, "{}", s);
        }
    });
}
/// usage: walkyh <harness> <params> <trace file> <result file>
pub fn init(args: &[String]) {
    let params = args[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let mut trace = vec![];
    if let Ok(t) = std::fs::read_to_string(&args[3]) {
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() >= 2 && matches!(w[0], "c" | "f" | "u") {
                trace.push(w[1].parse::<u64>().unwrap());
            }
        }
    }
    *N.lock().unwrap() = Some(Native { trace, pos: 0, params, out: args[4].clone(), allow: false, stdout_file: None, scale: std::env::var("WALKY_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0) });
    std::panic::set_hook(Box::new(|i| {
        let allow = N.try_lock().map(|g| g.as_ref().map_or(false, |n| n.allow)).unwrap_or(false);
        let m = format!("{}", i).replace('\n', " ");
        emit(&format!("{} {}", if allow { "ALLOWEDPANIC" } else { "PANIC" }, m));
        std::process::exit(if allow { 0 } else { 101 });
    }));
}
pub fn done() {
    emit("DONE");
}

fn txt<'a>(p: *const u8, n: usize) -> &'a str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_f64(lo: i64, hi: i64) -> f64 {
    black_box((lo, hi));
    f64::from_bits(next()) * with(|n| n.scale)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_real(lo: i64, hi: i64) -> f64 {
    black_box((hi, lo));
    // a replay may try several scales: which result rounds which way depends on the last bits
    f64::from_bits(next()) * with(|n| n.scale)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_fp() -> f64 {
    let x = black_box(next());
    f64::from_bits(x)
}
/// any number in [0, 1)
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_unit() -> f64 {
    let x = black_box(next() ^ 0);
    f64::from_bits(x).clamp(0.0, 1.0 - f64::EPSILON / 2.0)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_u64(lo: u64, hi: u64) -> u64 {
    black_box((lo, hi));
    next()
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_bool() -> bool {
    black_box(next() & 1 == 1)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_choice(n: u64) -> u64 {
    black_box(next().min(n.max(1) - 1))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_assume(b: bool) {
    if !b {
        emit("ASSUME");
        std::process::exit(0);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_check(b: bool, p: *const u8, n: usize) {
    if !b {
        emit(&format!("VIOLATED {}", txt(p, n)));
        std::process::exit(1);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_error(v: f64, r: f64, k: u64, p: *const u8, n: usize) {
    black_box(k);
    // far less than the factor of the symbolic check, far more than n roundings
    if std::env::var_os("WALKY_SCALE").is_some() && !((v - r).abs() <= 64.0 * f64::EPSILON * r) {
        emit(&format!("VIOLATED {}: {:e} instead of {:e}", txt(p, n), v, r));
        std::process::exit(1);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_reach(p: *const u8, n: usize) {
    emit(&format!("REACH {}", txt(p, n)));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_allow_panic(b: bool) {
    with(|n| n.allow = b);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_param(i: u64) -> i64 {
    black_box(with(|n| n.params.get(i as usize).copied().unwrap_or(0)))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_ite_f64(c: bool, a: f64, b: f64) -> f64 {
    black_box(if c { a } else { b })
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_note(p: *const u8, n: usize, v: u64) {
    emit(&format!("NOTE {}={}", txt(p, n), v));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_fnote(p: *const u8, n: usize, v: f64) {
    emit(&format!("FNOTE {}={}", txt(p, n), v.to_bits()));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_is_symbolic() -> bool {
    black_box(false)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_split(b: bool) -> bool {
    black_box(b)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_val(x: u64) -> u64 {
    black_box(x)
}
// ------------------------------------------------------------------ threads
// Native replay of a schedule: exactly one thread runs at any time, and the decisions are those of
// the executor (`sched_point` and `resched` in engine/src/exec.rs). The variant `mt` has a
// `__sym_yield` before every atomic operation and its futex calls lead to `__sym_syscall`.
// Nothing here may use the synchronisation of the standard library, which is under control itself.
#[derive(Clone, Copy, PartialEq)]
enum Wait {
    Run,
    Ne(*const u64, u64),
    Futex(*const u32),
    Done,
}
struct Sched {
    th: Vec<Wait>,
    user: Vec<u64>,
    preempt: u64,
    switches: u64,
}
static mut SCHED: Sched = Sched { th: vec![], user: vec![], preempt: 0, switches: 0 };
static mut CUR: usize = 0;
/// inside of the runtime: no scheduling points
static mut BUSY: bool = false;
#[allow(static_mut_refs)]
fn sched() -> &'static mut Sched {
    unsafe {
        if SCHED.th.is_empty() {
            BUSY = true;
            let get = |n: &str, d: u64| std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
            SCHED.preempt = get("WALKY_PREEMPT", 0);
            SCHED.switches = get("WALKY_SWITCHES", 0);
            SCHED.th.push(Wait::Run);
            SCHED.user.push(0);
            BUSY = false;
        }
        &mut SCHED
    }
}
extern "C" {
    fn pthread_create(t: *mut u64, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32;
    fn usleep(us: u32) -> i32;
    fn __errno_location() -> *mut i32;
}
fn cur() -> usize {
    unsafe { std::ptr::read_volatile(&raw const CUR) }
}
fn hand_over(to: usize, me: usize) {
    sched().th[to] = Wait::Run;
    unsafe { std::ptr::write_volatile(&raw mut CUR, to) };
    if me != usize::MAX {
        while cur() != me {
            unsafe { usleep(20) };
        }
    }
}
fn runnable() -> Vec<usize> {
    let s = sched();
    (0..s.th.len())
        .filter(|&i| match s.th[i] {
            Wait::Run => true,
            Wait::Ne(p, v) => unsafe { std::ptr::read_volatile(p) != v },
            _ => false,
        })
        .collect()
}
fn resched(me: usize) {
    let r = runnable();
    if r.is_empty() {
        emit("VIOLATED deadlock");
        std::process::exit(1);
    }
    let s = sched();
    let mut k = 0;
    if r.len() > 1 && s.switches > 0 {
        k = next() as usize;
        if k != 0 {
            s.switches -= 1;
        }
    }
    let to = r[k.min(r.len() - 1)];
    if to == me {
        s.th[to] = Wait::Run;
    } else {
        hand_over(to, if s.th[me] == Wait::Done { usize::MAX } else { me });
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_yield() {
    unsafe {
        if BUSY {
            return;
        }
    }
    let s = sched();
    loop {
        if s.th.len() == 1 || s.preempt == 0 {
            return;
        }
        let me = cur();
        let o: Vec<usize> = runnable().into_iter().filter(|&x| x != me).collect();
        if o.is_empty() {
            return;
        }
        let c = next() as usize;
        if c == 0 || c > o.len() {
            return;
        }
        s.preempt -= 1;
        hand_over(o[c - 1], me);
    }
}
struct Start {
    f: extern "C" fn(*mut u8),
    arg: *mut u8,
    id: usize,
}
extern "C" fn start(p: *mut u8) -> *mut u8 {
    let s = unsafe { std::ptr::read(p as *const Start) };
    while cur() != s.id {
        unsafe { usleep(20) };
    }
    (s.f)(s.arg);
    sched().th[s.id] = Wait::Done;
    resched(s.id);
    std::ptr::null_mut()
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_spawn(f: extern "C" fn(*mut u8), arg: *mut u8, user: u64) -> u64 {
    let s = sched();
    let id = s.th.len();
    s.th.push(Wait::Run);
    s.user.push(user);
    let p = Box::into_raw(Box::new(Start { f, arg, id }));
    let mut t = 0;
    if unsafe { pthread_create(&mut t, std::ptr::null(), start, p as *mut u8) } != 0 {
        std::process::exit(3);
    }
    black_box(id as u64)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_wait_ne(p: *const u64, v: u64) {
    if unsafe { std::ptr::read_volatile(p) } == v {
        let me = cur();
        sched().th[me] = Wait::Ne(p, v);
        resched(me);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_self() -> u64 {
    let s = sched();
    black_box(s.user[cur()])
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_set_user(u: u64) {
    let s = sched();
    s.user[cur()] = u;
}
/// `syscall` of the variant `mt`
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_syscall(nr: u64, a: u64, b: u64, c: u64, d: u64, e: u64) -> i64 {
    if nr == 202 {
        let (p, op, v) = (a as *const u32, b & 0x7f, c as u32);
        let s = sched();
        if op == 0 || op == 9 {
            if unsafe { std::ptr::read_volatile(p) } != v {
                unsafe { *__errno_location() = 11 };
                return -1;
            }
            let me = cur();
            s.th[me] = Wait::Futex(p);
            resched(me);
            return 0;
        }
        let mut woken = 0;
        for t in s.th.iter_mut() {
            if *t == Wait::Futex(p) && woken < v {
                *t = Wait::Run;
                woken += 1;
            }
        }
        return woken as i64;
    }
    let mut r = nr as i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") 0, lateout("rcx") _, lateout("r11") _);
        if r < 0 && r > -4096 {
            *__errno_location() = -r as i32;
            r = -1;
        }
    }
    r
}
// ------------------------------------------------------------------ threads of the standard library
// In the executed module the calls of pthread functions lead here (see check.py).
struct Pthread {
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
    done: u64,
    ret: *mut u8,
}
extern "C" fn pthread_main(p: *mut u8) {
    unsafe {
        let t = p as *mut Pthread;
        (*t).ret = ((*t).f)((*t).arg);
        std::ptr::write_volatile(&raw mut (*t).done, 1);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_pthread_create(t: *mut u64, _attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32 {
    let p = Box::into_raw(Box::new(Pthread { f, arg, done: 0, ret: std::ptr::null_mut() }));
    unsafe { *t = p as u64 };
    __sym_spawn(pthread_main, p as *mut u8, 0);
    0
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_pthread_join(t: u64, ret: *mut *mut u8) -> i32 {
    unsafe {
        let p = t as *mut Pthread;
        __sym_wait_ne(&raw const (*p).done, 0);
        if !ret.is_null() {
            *ret = (*p).ret;
        }
    }
    0
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_pthread_other() -> i32 {
    black_box(0)
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_file(p: *const u8, n: usize, d: *const u8, m: usize) {
    let data = unsafe { std::slice::from_raw_parts(d, m) };
    std::fs::write(txt(p, n), data).unwrap();
}
extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}
/// redirect the standard output of the code under test to a file (native replay only)
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_capture() {
    use std::os::fd::AsRawFd;
    let p = with(|n| {
        let p = std::path::PathBuf::from(format!("{}.stdout", n.out));
        n.stdout_file = Some(p.clone());
        p
    });
    let f = std::fs::File::create(&p).unwrap();
    unsafe {
        dup2(f.as_raw_fd(), 1);
    }
    std::mem::forget(f);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_stdout(p: *mut u8, n: usize) -> usize {
    let _ = std::io::stdout().flush();
    let d = with(|x| x.stdout_file.clone()).map(|f| std::fs::read(f).unwrap_or_default()).unwrap_or_default();
    let k = d.len().min(n);
    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), p, k) };
    k
}

/// the decimal text of a cost, as a document contains it
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_text(x: f64, p: *mut u8) -> usize {
    let s = format!("{}", x);
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len()) };
    s.len()
}

// ------------------------------------------------------------------ safe wrappers
pub fn text(x: f64) -> String {
    let mut b = vec![0u8; 400];
    let n = __sym_text(x, b.as_mut_ptr());
    b.truncate(n);
    String::from_utf8(b).unwrap()
}
pub fn param(i: usize) -> i64 {
    __sym_param(i as u64)
}
pub fn f(lo: i64, hi: i64) -> f64 {
    __sym_f64(lo, hi)
}
pub fn choice(n: usize) -> usize {
    __sym_choice(n as u64) as usize
}
pub fn u(lo: u64, hi: u64) -> u64 {
    __sym_u64(lo, hi)
}
pub fn assume(b: bool) {
    __sym_assume(b)
}
pub fn check(b: bool, s: &str) {
    __sym_check(b, s.as_ptr(), s.len())
}
pub fn reach(s: &str) {
    __sym_reach(s.as_ptr(), s.len())
}
pub fn note(s: &str, v: u64) {
    __sym_note(s.as_ptr(), s.len(), v)
}
pub fn fnote(s: &str, v: f64) {
    __sym_fnote(s.as_ptr(), s.len(), v)
}
pub fn ite(c: bool, a: f64, b: f64) -> f64 {
    __sym_ite_f64(c, a, b)
}

/// a file for the code under test (in the working directory of the replay)
pub fn file(name: &str, data: &[u8]) {
    __sym_file(name.as_ptr(), name.len(), data.as_ptr(), data.len())
}
pub fn capture() {
    __sym_capture()
}
pub fn stdout(b: &mut [u8]) -> usize {
    __sym_stdout(b.as_mut_ptr(), b.len())
}
pub fn val(x: usize) -> usize {
    __sym_val(x as u64) as usize
}
pub fn is_symbolic() -> bool {
    __sym_is_symbolic()
}
pub fn allow_panic(b: bool) {
    __sym_allow_panic(b)
}
pub fn split(b: bool) -> bool {
    __sym_split(b)
}
/// any cost, for the runs with the rounding-error model
pub fn real(lo: i64, hi: i64) -> f64 {
    __sym_real(lo, hi)
}
/// a fixed cost of a template, scaled like the symbolic ones in a native replay
pub fn fixed(x: f64) -> f64 {
    if is_symbolic() {
        x
    } else {
        x * with(|n| n.scale)
    }
}
/// `v` is `r` up to the rounding errors of summing the edges of the tour (runs with `--errors`)
pub fn error(v: f64, r: f64, s: &str) {
    __sym_error(v, r, 4096, s.as_ptr(), s.len())
}

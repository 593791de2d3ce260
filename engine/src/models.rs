//! Models of everything the harness module does not define: harness intrinsics, the C library
//! surface that std uses, LLVM intrinsics.
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use crate::term::*;
use crate::val::Val;
use std::rc::Rc;

type R<X> = Result<X, Stop>;

const INTR: &[&str] = &[
    "__sym_f64", "__sym_fp", "__sym_u64", "__sym_choice", "__sym_assume", "__sym_check", "__sym_reach",
    "__sym_allow_panic", "__sym_param", "__sym_ite_f64", "__sym_note", "__sym_is_symbolic", "__sym_spawn",
    "__sym_wait_ne", "__sym_yield", "__sym_self", "__sym_set_user", "__sym_file", "__sym_stdout", "__sym_is_const",
    "__sym_val", "__sym_real", "__sym_fnote", "__sym_bool", "__sym_split", "__sym_capture", "__sym_error",
    "__sym_text", "__sym_syscall", "__sym_unit",
];
const LIBC: &[&str] = &[
    "malloc", "calloc", "realloc", "free", "posix_memalign", "memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen",
    "read", "write", "writev", "open64", "fstat64", "statx", "close", "lseek64", "syscall", "sched_getaffinity", "sysconf",
    "getenv", "pthread_key_create", "pthread_setspecific", "pthread_key_delete", "__cxa_thread_atexit_impl", "gettid",
    "__errno_location", "abort", "exit", "_exit", "pthread_self", "pthread_getspecific", "sched_yield", "getrandom",
    "open", "fstat", "lseek", "fcntl", "pthread_getaffinity_np", "clock_gettime", "environ", "sigaction", "signal", "getpid",
    "fma", "stat64", "secure_getenv", "memrchr", "memchr", "dlsym", "sigaltstack", "prctl", "nanosleep", "clock_nanosleep",
    "madvise", "munmap",
];

pub fn classify(s: &Sym) -> H {
    let n = s.name.as_str();
    if let Some(i) = INTR.iter().position(|x| *x == n) {
        return H::Intr(i as u16);
    }
    if is_panic(n) {
        return H::Panic;
    }
    if let SymKind::Func { .. } = s.kind {
        if n.contains("4core3fmt5floatd") && (n.ends_with("7Display3fmt") || n.ends_with("5Debug3fmt")) {
            return H::Text(true);
        }
        if n.contains("4core3num11float_parsed") && n.ends_with("7FromStr8from_str") {
            return H::Text(false);
        }
        return H::Defined;
    }
    if let Some(i) = LIBC.iter().position(|x| *x == n) {
        return H::Libc(i as u16);
    }
    if n.contains("no_alloc_shim_is_unstable") {
        return H::Nop;
    }
    if n.starts_with("llvm.") {
        for p in [
            "llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.donothing", "llvm.invariant", "llvm.var.annotation",
            "llvm.prefetch", "llvm.x86.sse2.pause", "llvm.sideeffect", "llvm.assume",
        ] {
            if n.starts_with(p) {
                return H::Nop;
            }
        }
        return H::Llvm(0);
    }
    H::Unknown
}
fn is_panic(n: &str) -> bool {
    if !n.starts_with("_R") {
        return n == "rust_begin_unwind" || n == "rust_panic";
    }
    if n.contains("core9panicking") && !n.contains("drop_glue") || n.contains("4core9panicking") {
        return true;
    }
    if n.contains("_4core9panicking") {
        return true;
    }
    // NvNtCs..._4core9panicking
    let cr = n.contains("4core") && n.contains("9panicking") && !n.contains("3std9panicking");
    cr || [
        "option13unwrap_failed", "option13expect_failed", "result13unwrap_failed", "slice_index_fail", "slice_error_fail",
        "slice_error_fail_rt", "len_mismatch_fail", "panic_on_ord_violation", "panic_already_borrowed",
        "panic_already_mutably_borrowed", "rust_begin_unwind", "panicking11begin_panic", "panicking15panic_with_hook",
        "18handle_alloc_error", "7raw_vec12handle_error", "capacity_overflow", "panic_access_error",
        "slice_start_index_len_fail", "slice_end_index_len_fail", "slice_index_order_fail",
    ]
    .iter()
    .any(|p| n.ends_with(p))
        || n.contains("panicking11begin_panic")
}

fn bits(t: &Ty) -> u32 {
    match t {
        Ty::Vector(_, e) => e.bits(),
        t => t.bits(),
    }
}
fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsupported(s.into()))
}

pub fn call(ex: &mut Exec, st: &mut State, h: H, sym: u32, a: &[(Ty, Val)], rty: &Ty) -> R<()> {
    match h {
        H::Panic => {
            let nm = pretty(&ex.m.syms[sym as usize].name);
            let s = ex.stack(st).first().cloned().unwrap_or_default();
            Err(Stop::Panic(format!("{} in {}", nm, s)))
        }
        H::Intr(i) => intr(ex, st, INTR[i as usize], a),
        H::Libc(i) => libc(ex, st, LIBC[i as usize], a),
        H::Llvm(_) => {
            let n = ex.m.syms[sym as usize].name.clone();
            llvm(ex, st, &n, a, rty)
        }
        _ => unsup(format!("call to external function {}", ex.m.syms[sym as usize].name)),
    }
}

fn c(ex: &mut Exec, st: &mut State, a: &[(Ty, Val)], i: usize) -> R<u64> {
    let v = a[i].1.clone();
    Ok(match v {
        Val::C(x) => x as u64,
        v => ex.concretize(st, &v, bits(&a[i].0))? as u64,
    })
}
fn text(ex: &mut Exec, st: &mut State, a: &[(Ty, Val)], i: usize) -> R<String> {
    let (p, n) = (c(ex, st, a, i)?, c(ex, st, a, i + 1)?);
    Ok(String::from_utf8_lossy(&ex.bytes(st, p, n)?).into_owned())
}

fn intr(ex: &mut Exec, st: &mut State, n: &str, a: &[(Ty, Val)]) -> R<()> {
    let zero = Val::C(0);
    match n {
        "__sym_f64" | "__sym_real" => {
            let (lo, hi) = (c(ex, st, a, 0)? as i64, c(ex, st, a, 1)? as i64);
            if ex.cfg.replay.is_some() {
                let v = ex.replay_next('f').unwrap();
                ex.finish_call(st, Val::C(v));
                return Ok(());
            }
            let t = ex.new_var(st, Sort::Real, Q::int(lo as i128), Q::int(hi as i128), n == "__sym_f64");
            ex.finish_call(st, Val::T(t));
        }
        "__sym_fp" | "__sym_unit" => {
            if ex.cfg.replay.is_some() {
                let v = ex.replay_next('f').unwrap();
                ex.finish_call(st, Val::C(v));
                return Ok(());
            }
            let hi = if n == "__sym_unit" { Q::ONE } else { Q::ZERO };
            let t = ex.new_var(st, Sort::Fp, Q::ZERO, hi, false);
            ex.finish_call(st, Val::T(t));
        }
        "__sym_u64" => {
            let (lo, hi) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
            if ex.cfg.replay.is_some() {
                let v = ex.replay_next('u').unwrap();
                ex.finish_call(st, Val::C(v));
                return Ok(());
            }
            let t = ex.new_var(st, Sort::Bv(64), Q::int(lo as i128), Q::int(hi as i128), false);
            ex.finish_call(st, Val::T(t));
        }
        "__sym_bool" => {
            if ex.cfg.replay.is_some() {
                let v = ex.replay_next('u').unwrap();
                ex.finish_call(st, Val::C(v & 1));
                return Ok(());
            }
            let t = ex.new_var(st, Sort::Bool, Q::ZERO, Q::ZERO, false);
            ex.finish_call(st, Val::T(t));
        }
        "__sym_choice" => {
            let k = c(ex, st, a, 0)?;
            let v = ex.choice(st, k as u32)?;
            ex.finish_call(st, Val::C(v as u128));
        }
        "__sym_assume" => {
            let t = ex.boolt(&a[0].1);
            ex.assume(st, t)?;
            ex.finish_call(st, zero);
        }
        "__sym_check" => {
            let s = text(ex, st, a, 1)?;
            let t = ex.boolt(&a[0].1);
            ex.check(st, t, &s)?;
            ex.finish_call(st, zero);
        }
        "__sym_error" => {
            // value, exact reference, factor: the accumulated rounding error of the value is at
            // most factor times the unit roundoff times the reference
            let s = text(ex, st, a, 3)?;
            if ex.cfg.track_errors {
                let k = c(ex, st, a, 2)? as i128;
                let t = match &a[0].1 {
                    Val::T(v) if ex.is_real(&a[0].1) => {
                        let e = ex.tm.error_bound(*v);
                        let r = ex.realt(&a[1].1)?;
                        let d = ex.tm.lin_add(e, r, Q::int(-k));
                        ex.tm.lin_le0(d)
                    }
                    _ => TRUE,
                };
                ex.check(st, t, &s)?;
            }
            ex.finish_call(st, zero);
        }
        "__sym_syscall" => return libc(ex, st, "syscall", a),
        "__sym_text" => {
            let p = c(ex, st, a, 1)?;
            let s = match &a[0].1 {
                Val::T(t) => Exec::cost_text(*t),
                Val::C(x) => format!("{}", f64::from_bits(*x as u64)),
                _ => return unsup("text"),
            };
            ex.write_bytes(st, p, s.as_bytes())?;
            ex.finish_call(st, Val::C(s.len() as u128));
        }
        "__sym_reach" => {
            let s = text(ex, st, a, 0)?;
            *ex.reach.entry(s).or_insert(0) += 1;
            ex.finish_call(st, zero);
        }
        "__sym_allow_panic" => {
            st.allow_panic = c(ex, st, a, 0)? & 1 == 1;
            ex.finish_call(st, zero);
        }
        "__sym_param" => {
            let i = c(ex, st, a, 0)? as usize;
            let v = ex.cfg.params.get(i).copied().unwrap_or(0);
            ex.finish_call(st, Val::C(v as u64 as u128));
        }
        "__sym_ite_f64" => {
            let t = ex.boolt(&a[0].1);
            let (x, y) = (a[1].1.clone(), a[2].1.clone());
            let r = if t == TRUE {
                x
            } else if t == FALSE {
                y
            } else {
                ex.merge_f64(st, t, x, y)?
            };
            ex.finish_call(st, r);
        }
        "__sym_note" => {
            let s = text(ex, st, a, 0)?;
            let k = c(ex, st, a, 2)?;
            Rc::make_mut(&mut st.notes).push(format!("{}={}", s, k));
            ex.finish_call(st, zero);
        }
        "__sym_fnote" => {
            let s = text(ex, st, a, 0)?;
            Rc::make_mut(&mut st.fnotes).push((s, a[2].1.clone()));
            ex.finish_call(st, zero);
        }
        "__sym_is_symbolic" => ex.finish_call(st, Val::C(1)),
        "__sym_is_const" => {
            let r = a[0].1.is_c();
            ex.finish_call(st, Val::C(r as u128));
        }
        "__sym_split" => {
            // force a case split on a condition
            let t = ex.boolt(&a[0].1);
            let r = ex.decide(st, t)?;
            ex.finish_call(st, Val::C(r as u128));
        }
        "__sym_val" => {
            // a concrete value of an integer (forks over all of them)
            let v = c(ex, st, a, 0)?;
            ex.finish_call(st, Val::C(v as u128));
        }
        "__sym_spawn" => {
            let (f, arg) = (c(ex, st, a, 0)?, a[1].1.clone());
            let user = c(ex, st, a, 2)?;
            let s = (f >> 32) as u32 - 1;
            let func = ex.m.func(s, &ex.m);
            let id = st.th.len();
            ex.finish_call(st, Val::C(id as u128));
            st.th.push(Thread { frames: vec![], block: Block_::Run, tls: Default::default(), user });
            let cur = st.cur;
            st.cur = id;
            ex.push_frame(st, func, vec![arg], None);
            st.cur = cur;
        }
        "__sym_wait_ne" => {
            let (p, v) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
            ex.finish_call(st, zero);
            let cur = ex.load_scalar(st, p, 8)?.c() as u64;
            if cur == v {
                let k = st.cur;
                st.th[k].block = Block_::WaitNe(p, v);
                return Err(Stop::Resched);
            }
        }
        "__sym_capture" => ex.finish_call(st, zero),
        "__sym_yield" => {
            if ex.sched_point(st)? {
                return Ok(());
            }
            ex.finish_call(st, zero);
        }
        "__sym_self" => {
            let u = st.th[st.cur].user;
            ex.finish_call(st, Val::C(u as u128));
        }
        "__sym_set_user" => {
            let u = c(ex, st, a, 0)?;
            let k = st.cur;
            st.th[k].user = u;
            ex.finish_call(st, zero);
        }
        "__sym_file" => {
            let path = text(ex, st, a, 0)?;
            let (p, n) = (c(ex, st, a, 2)?, c(ex, st, a, 3)?);
            let data = ex.bytes(st, p, n)?;
            Rc::make_mut(&mut st.files).push(VFile { path: path.into_bytes(), data, pos: 0, open: false });
            ex.finish_call(st, zero);
        }
        "__sym_stdout" => {
            let (p, n) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
            let o: Vec<u8> = st.out.iter().copied().take(n as usize).collect();
            ex.write_bytes(st, p, &o)?;
            ex.finish_call(st, Val::C(o.len() as u128));
        }
        _ => return unsup(n.to_string()),
    }
    Ok(())
}

fn alloc(_ex: &mut Exec, st: &mut State, n: u64) -> R<u64> {
    if n > (1 << 26) {
        return unsup(format!("allocation of {} bytes", n));
    }
    Ok(addr(st.mem.alloc(n as usize, Kind::Heap), 0))
}
fn free(st: &mut State, p: u64) -> R<()> {
    if p == 0 {
        return Ok(());
    }
    match st.mem.get(oid(p)) {
        Some(o) if o.kind == Kind::Heap && off(p) == 0 => {
            st.mem.set(oid(p), None);
            Ok(())
        }
        _ => Err(Stop::MemErr(format!("invalid free of {:x}", p))),
    }
}
fn errno(ex: &mut Exec, st: &mut State) -> u64 {
    let k = st.cur;
    if let Some(o) = st.th[k].tls.get(&u32::MAX) {
        return addr(*o, 0);
    }
    let _ = ex;
    let o = st.mem.alloc(8, Kind::Global);
    Rc::make_mut(&mut st.th[k].tls).insert(u32::MAX, o);
    addr(o, 0)
}
fn set_errno(ex: &mut Exec, st: &mut State, e: i32) -> R<()> {
    let p = errno(ex, st);
    ex.store_scalar(st, p, 4, &Val::C(e as u32 as u128))
}
const M1: u128 = u64::MAX as u128;

fn libc(ex: &mut Exec, st: &mut State, n: &str, a: &[(Ty, Val)]) -> R<()> {
    let mut ret = Val::C(0);
    match n {
        "malloc" => {
            let k = c(ex, st, a, 0)?;
            ret = Val::C(alloc(ex, st, k)? as u128);
        }
        "calloc" => {
            let k = c(ex, st, a, 0)? * c(ex, st, a, 1)?;
            ret = Val::C(alloc(ex, st, k)? as u128);
        }
        "posix_memalign" => {
            let p = c(ex, st, a, 0)?;
            let k = c(ex, st, a, 2)?;
            let q = alloc(ex, st, k)?;
            ex.store_scalar(st, p, 8, &Val::C(q as u128))?;
        }
        "realloc" => {
            let (p, k) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
            let q = alloc(ex, st, k)?;
            if p != 0 {
                let old = match st.mem.get(oid(p)) {
                    Some(o) => o.data.len() as u64,
                    None => return Err(Stop::MemErr("realloc of dead object".into())),
                };
                ex.memcpy(st, q, p, old.min(k))?;
                free(st, p)?;
            }
            ret = Val::C(q as u128);
        }
        "free" => {
            let p = c(ex, st, a, 0)?;
            free(st, p)?;
        }
        "memcpy" | "memmove" => {
            let (d, s, k) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?, c(ex, st, a, 2)?);
            ex.memcpy(st, d, s, k)?;
            ret = Val::C(d as u128);
        }
        "memset" => {
            let (d, v, k) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?, c(ex, st, a, 2)?);
            let b = vec![v as u8; k as usize];
            ex.write_bytes(st, d, &b)?;
            ret = Val::C(d as u128);
        }
        "memcmp" | "bcmp" => {
            let (d, s, k) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?, c(ex, st, a, 2)?);
            let mut r: i32 = 0;
            for i in 0..k {
                let x = ex.load_scalar(st, d + i, 1)?;
                let y = ex.load_scalar(st, s + i, 1)?;
                if let (Val::C(x), Val::C(y)) = (&x, &y) {
                    if x != y {
                        r = if x < y { -1 } else { 1 };
                        break;
                    }
                    continue;
                }
                let e = ex.icmp(st, IPred::Eq, 8, &x, &y)?;
                if !ex.decide_val(st, &e)? {
                    if n == "bcmp" {
                        r = 1;
                    } else {
                        let l = ex.icmp(st, IPred::Ult, 8, &x, &y)?;
                        r = if ex.decide_val(st, &l)? { -1 } else { 1 };
                    }
                    break;
                }
            }
            ret = Val::C(r as u32 as u128);
        }
        "strlen" => {
            let p = c(ex, st, a, 0)?;
            ret = Val::C(ex.cstr(st, p)?.len() as u128);
        }
        "memchr" | "memrchr" => {
            let (p, v, k) = (c(ex, st, a, 0)?, c(ex, st, a, 1)? as u8, c(ex, st, a, 2)?);
            let b = ex.bytes(st, p, k)?;
            let i = if n == "memchr" { b.iter().position(|x| *x == v) } else { b.iter().rposition(|x| *x == v) };
            ret = Val::C(i.map_or(0, |i| (p + i as u64) as u128));
        }
        "write" | "writev" => {
            let fd = c(ex, st, a, 0)?;
            let (p, k) = (c(ex, st, a, 1)?, c(ex, st, a, 2)?);
            let mut data = vec![];
            if n == "write" {
                data = ex.bytes(st, p, k)?;
            } else {
                for i in 0..k {
                    let b = ex.load_scalar(st, p + 16 * i, 8)?.c() as u64;
                    let l = ex.load_scalar(st, p + 16 * i + 8, 8)?.c() as u64;
                    data.extend(ex.bytes(st, b, l)?);
                }
            }
            ret = Val::C(data.len() as u128);
            match fd {
                1 => Rc::make_mut(&mut st.out).extend(data),
                2 => Rc::make_mut(&mut st.err_out).extend(data),
                _ => return unsup("write to a file"),
            }
        }
        "open64" | "open" => {
            let p = c(ex, st, a, 0)?;
            let path = ex.cstr(st, p)?;
            match st.files.iter().position(|f| f.path == path) {
                Some(i) => {
                    let f = &mut Rc::make_mut(&mut st.files)[i];
                    f.pos = 0;
                    f.open = true;
                    ret = Val::C(10 + i as u128);
                }
                None => {
                    set_errno(ex, st, 2)?;
                    ret = Val::C(M1 & 0xffff_ffff);
                }
            }
        }
        "read" => {
            let (fd, p, k) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?, c(ex, st, a, 2)?);
            let i = fd as usize - 10;
            let f = match st.files.get(i) {
                Some(f) if f.open => f,
                _ => return unsup("read from an unknown descriptor"),
            };
            let d: Vec<u8> = f.data[f.pos..].iter().copied().take(k as usize).collect();
            Rc::make_mut(&mut st.files)[i].pos += d.len();
            ex.write_bytes(st, p, &d)?;
            ret = Val::C(d.len() as u128);
        }
        "close" => {
            let fd = c(ex, st, a, 0)?;
            if fd >= 10 {
                Rc::make_mut(&mut st.files)[fd as usize - 10].open = false;
            }
        }
        "lseek64" | "lseek" => {
            let (fd, o, w) = (c(ex, st, a, 0)?, c(ex, st, a, 1)? as i64, c(ex, st, a, 2)?);
            let f = &mut Rc::make_mut(&mut st.files)[fd as usize - 10];
            let b = match w {
                0 => 0,
                1 => f.pos as i64,
                _ => f.data.len() as i64,
            };
            f.pos = (b + o) as usize;
            ret = Val::C(f.pos as u128);
        }
        "statx" | "fstat64" | "fstat" | "stat64" => {
            // metadata is not available: callers fall back to reading to the end
            set_errno(ex, st, 38)?;
            ret = Val::C(0xffff_ffff);
        }
        "fcntl" => {}
        "syscall" => {
            let nr = c(ex, st, a, 0)?;
            match nr {
                202 => {
                    let (p, op, v) = (c(ex, st, a, 1)?, c(ex, st, a, 2)? & 0x7f, c(ex, st, a, 3)? as u32);
                    if op == 0 || op == 9 {
                        let cur = ex.load_scalar(st, p, 4)?.c() as u32;
                        if cur == v {
                            ex.finish_call(st, Val::C(0));
                            let k = st.cur;
                            st.th[k].block = Block_::Futex(p);
                            return Err(Stop::Resched);
                        }
                        set_errno(ex, st, 11)?;
                        ret = Val::C(M1);
                    } else {
                        let mut woken = 0u32;
                        for t in st.th.iter_mut() {
                            if t.block == Block_::Futex(p) && woken < v {
                                t.block = Block_::Run;
                                woken += 1;
                            }
                        }
                        ret = Val::C(woken as u128);
                    }
                }
                318 => {
                    let (p, k) = (c(ex, st, a, 1)?, c(ex, st, a, 2)?);
                    let b = vec![0x5au8; k as usize];
                    ex.write_bytes(st, p, &b)?;
                    ret = Val::C(k as u128);
                }
                332 => {
                    set_errno(ex, st, 38)?;
                    ret = Val::C(M1);
                }
                186 => ret = Val::C(1 + st.cur as u128),
                _ => return unsup(format!("system call {}", nr)),
            }
        }
        "getrandom" => {
            let (p, k) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
            let b = vec![0x5au8; k as usize];
            ex.write_bytes(st, p, &b)?;
            ret = Val::C(k as u128);
        }
        "sched_getaffinity" | "pthread_getaffinity_np" => {
            let (k, p) = (c(ex, st, a, 1)?, c(ex, st, a, 2)?);
            let mut b = vec![0u8; k as usize];
            for i in 0..ex.cfg.ncpu {
                b[i / 8] |= 1 << (i % 8);
            }
            ex.write_bytes(st, p, &b)?;
        }
        "sysconf" => {
            ret = Val::C(match c(ex, st, a, 0)? {
                30 => 4096,
                83 | 84 => ex.cfg.ncpu as u128,
                _ => M1,
            });
        }
        "getenv" | "secure_getenv" | "dlsym" | "sigaltstack" | "prctl" | "madvise" | "munmap" => {}
        "pthread_key_create" => {
            let p = c(ex, st, a, 0)?;
            let id = st.mem.alloc(8, Kind::Global);
            ex.store_scalar(st, p, 4, &Val::C(id as u128))?;
        }
        "pthread_setspecific" => {
            let (k, v) = (c(ex, st, a, 0)?, c(ex, st, a, 1)?);
            let cur = st.cur;
            let id = match st.th[cur].tls.get(&(0x8000_0000 | k as u32)) {
                Some(i) => *i,
                None => {
                    let id = st.mem.alloc(8, Kind::Global);
                    Rc::make_mut(&mut st.th[cur].tls).insert(0x8000_0000 | k as u32, id);
                    id
                }
            };
            ex.store_scalar(st, addr(id, 0), 8, &Val::C(v as u128))?;
        }
        "pthread_getspecific" => {
            let k = c(ex, st, a, 0)?;
            if let Some(id) = st.th[st.cur].tls.get(&(0x8000_0000 | k as u32)).copied() {
                ret = ex.load_scalar(st, addr(id, 0), 8)?;
            }
        }
        "pthread_key_delete" | "__cxa_thread_atexit_impl" | "sigaction" | "signal" => {}
        "gettid" | "pthread_self" | "getpid" => ret = Val::C(1 + st.cur as u128),
        "__errno_location" => ret = Val::C(errno(ex, st) as u128),
        "sched_yield" | "nanosleep" | "clock_nanosleep" => {}
        "clock_gettime" => {
            let p = c(ex, st, a, 1)?;
            let t = st.steps;
            ex.store_scalar(st, p, 8, &Val::C(1_000_000 + t as u128 / 1000))?;
            ex.store_scalar(st, p + 8, 8, &Val::C((t % 1000) as u128))?;
        }
        "abort" => return Err(Stop::Abort("abort()".into())),
        "exit" | "_exit" => {
            let k = c(ex, st, a, 0)?;
            return Err(Stop::Exit(k as i32));
        }
        _ => return unsup(format!("libc function {}", n)),
    }
    ex.finish_call(st, ret);
    Ok(())
}

fn lanes(v: &Val, i: usize) -> Val {
    match v {
        Val::A(x) => x[i].clone(),
        v => v.clone(),
    }
}

fn llvm(ex: &mut Exec, st: &mut State, n: &str, a: &[(Ty, Val)], rty: &Ty) -> R<()> {
    let base: Vec<&str> = n.split('.').collect();
    let b1 = base[1];
    match b1 {
        "memcpy" | "memmove" | "memset" => {
            let (d, k) = (c(ex, st, a, 0)?, c(ex, st, a, 2)?);
            if b1 == "memset" {
                if k > 0 {
                    match &a[1].1 {
                        Val::C(v) => {
                            let b = vec![*v as u8; k as usize];
                            ex.write_bytes(st, d, &b)?;
                        }
                        v => {
                            let v = v.clone();
                            for i in 0..k {
                                ex.store_scalar(st, d + i, 1, &v)?;
                            }
                        }
                    }
                }
            } else {
                let s = c(ex, st, a, 1)?;
                ex.memcpy(st, d, s, k)?;
            }
            ex.finish_call(st, Val::C(0));
            return Ok(());
        }
        "threadlocal" => {
            let p = c(ex, st, a, 0)?;
            let s = oid(p) - 1;
            let cur = st.cur;
            let id = match st.th[cur].tls.get(&s) {
                Some(i) => *i,
                None => {
                    let o = ex.global_obj(s)?;
                    let id = st.mem.next;
                    st.mem.next += 1;
                    st.mem.set(id, Some(o));
                    Rc::make_mut(&mut st.th[cur].tls).insert(s, id);
                    id
                }
            };
            ex.finish_call(st, Val::C(addr(id, 0) as u128));
            return Ok(());
        }
        "trap" | "debugtrap" | "ubsantrap" => return Err(Stop::Abort("llvm.trap".into())),
        "is" if base[2] == "fpclass" => {
            let mk = c(ex, st, a, 1)?;
            let r = match &a[0].1 {
                Val::C(x) => {
                    let f = f64::from_bits(*x as u64);
                    let neg = f.is_sign_negative();
                    let b = match f.classify() {
                        std::num::FpCategory::Nan => if x & (1 << 51) != 0 { 1 } else { 0 },
                        std::num::FpCategory::Infinite => if neg { 2 } else { 9 },
                        std::num::FpCategory::Normal => if neg { 3 } else { 8 },
                        std::num::FpCategory::Subnormal => if neg { 4 } else { 7 },
                        std::num::FpCategory::Zero => if neg { 5 } else { 6 },
                    };
                    Val::C((mk >> b & 1) as u128)
                }
                v if ex.is_real(v) => {
                    let v = v.clone();
                    let zero = Val::C(0);
                    let mut r = Val::C(0);
                    for (bit, p) in [(8, FPred::Ogt), (6, FPred::Oeq), (3, FPred::Olt)] {
                        if mk >> bit & 1 == 1 {
                            let k = ex.fcmp(p, &Ty::F64, &v, &zero)?;
                            r = ex.ibin(st, Bin::Or, 1, &r, &k)?;
                        }
                    }
                    r
                }
                _ => return unsup("llvm.is.fpclass on a floating-point variable"),
            };
            ex.finish_call(st, r);
            return Ok(());
        }
        "is" => {
            // llvm.is.constant
            ex.finish_call(st, Val::C(0));
            return Ok(());
        }
        "expect" => {
            ex.finish_call(st, a[0].1.clone());
            return Ok(());
        }
        "vector" => {
            // reductions
            let v = match &a[a.len() - 1].1 {
                Val::A(x) => x.clone(),
                _ => return unsup(n.to_string()),
            };
            let w = bits(&a[a.len() - 1].0);
            let op = base[3];
            let mut r = v[0].clone();
            for e in v[1..].iter() {
                r = match op {
                    "add" => ex.ibin(st, Bin::Add, w, &r, e)?,
                    "and" => ex.ibin(st, Bin::And, w, &r, e)?,
                    "or" => ex.ibin(st, Bin::Or, w, &r, e)?,
                    "xor" => ex.ibin(st, Bin::Xor, w, &r, e)?,
                    "mul" => ex.ibin(st, Bin::Mul, w, &r, e)?,
                    _ => scalar(ex, st, op, w, rty, &[r, e.clone()], &base)?,
                };
            }
            ex.finish_call(st, r);
            return Ok(());
        }
        _ => {}
    }
    let r = match rty {
        Ty::Vector(k, e) if b1 != "uadd" && b1 != "usub" && b1 != "umul" => {
            let mut v = vec![];
            for i in 0..*k as usize {
                let args: Vec<Val> = a.iter().map(|x| lanes(&x.1, i)).collect();
                v.push(scalar(ex, st, b1, e.bits(), e, &args, &base)?);
            }
            Val::A(v.into())
        }
        _ => {
            let args: Vec<Val> = a.iter().map(|x| x.1.clone()).collect();
            let w = a.first().map_or(0, |x| match &x.0 {
                Ty::Void | Ty::Other | Ty::Struct(..) | Ty::Arr(..) => 0,
                t => bits(t),
            });
            scalar(ex, st, b1, w, rty, &args, &base)?
        }
    };
    ex.finish_call(st, r);
    Ok(())
}

fn scalar(ex: &mut Exec, st: &mut State, op: &str, w: u32, rty: &Ty, a: &[Val], base: &[&str]) -> R<Val> {
    let allc = a.iter().all(|x| x.is_c());
    let m = mask(w);
    match op {
        "umax" | "umin" | "smax" | "smin" => {
            let p = match op {
                "umax" => IPred::Uge,
                "umin" => IPred::Ule,
                "smax" => IPred::Sge,
                _ => IPred::Sle,
            };
            let b = ex.icmp(st, p, w, &a[0], &a[1])?;
            Ok(if ex.decide_val(st, &b)? { a[0].clone() } else { a[1].clone() })
        }
        "ucmp" | "scmp" => {
            let rw = rty.bits();
            let p = if op == "ucmp" { IPred::Ult } else { IPred::Slt };
            let lt = ex.icmp(st, p, w, &a[0], &a[1])?;
            if ex.decide_val(st, &lt)? {
                return Ok(Val::C(mask(rw)));
            }
            let eq = ex.icmp(st, IPred::Eq, w, &a[0], &a[1])?;
            Ok(Val::C(if ex.decide_val(st, &eq)? { 0 } else { 1 }))
        }
        "ctpop" | "cttz" | "ctlz" | "bswap" | "bitreverse" if !allc => {
            let v = ex.concretize(st, &a[0], w)?;
            let mut b = a.to_vec();
            b[0] = Val::C(v);
            scalar(ex, st, op, w, rty, &b, base)
        }
        "ctpop" => Ok(Val::C((a[0].c() & m).count_ones() as u128)),
        "cttz" => Ok(Val::C(((a[0].c() & m).trailing_zeros().min(w)) as u128)),
        "ctlz" => Ok(Val::C(((a[0].c() & m).leading_zeros() - (128 - w)) as u128)),
        "bswap" => {
            let x = a[0].c() & m;
            let mut r = 0u128;
            for i in 0..w / 8 {
                r |= ((x >> (8 * i)) & 0xff) << (w - 8 - 8 * i);
            }
            Ok(Val::C(r))
        }
        "bitreverse" => {
            let x = a[0].c() & m;
            let mut r = 0u128;
            for i in 0..w {
                r |= ((x >> i) & 1) << (w - 1 - i);
            }
            Ok(Val::C(r))
        }
        "fshl" | "fshr" => {
            if !allc {
                // only constant shifts of symbolic values
                if !a[2].is_c() {
                    return unsup("funnel shift");
                }
                let s = (a[2].c() % w as u128) as u32;
                let l = if op == "fshl" { s } else { (w - s) % w };
                if l == 0 {
                    return Ok(if op == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let hi = ex.ibin(st, Bin::Shl, w, &a[0], &Val::C(l as u128))?;
                let lo = ex.ibin(st, Bin::LShr, w, &a[1], &Val::C((w - l) as u128))?;
                return ex.ibin(st, Bin::Or, w, &hi, &lo);
            }
            let s = (a[2].c() % w as u128) as u32;
            let (x, y) = (a[0].c() & m, a[1].c() & m);
            Ok(Val::C(if s == 0 {
                if op == "fshl" {
                    x
                } else {
                    y
                }
            } else if op == "fshl" {
                ((x << s) | (y >> (w - s))) & m
            } else {
                ((x << (w - s)) | (y >> s)) & m
            }))
        }
        "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
            let sat = base[2] == "sat";
            let bop = match &op[1..] {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                _ => Bin::Mul,
            };
            let signed = op.starts_with('s');
            if allc {
                let (x, y) = (a[0].c() & m, a[1].c() & m);
                let r = int_bin(bop, w, x, y).unwrap();
                let ov;
                if signed {
                    let (p, q) = (sx(x, w), sx(y, w));
                    let t = match bop {
                        Bin::Add => p.checked_add(q),
                        Bin::Sub => p.checked_sub(q),
                        _ => p.checked_mul(q),
                    };
                    ov = t.map_or(true, |t| t != sx(r, w));
                    if sat {
                        let neg = match bop {
                            Bin::Add => p < 0,
                            Bin::Sub => p < 0,
                            _ => (p < 0) != (q < 0),
                        };
                        return Ok(Val::C(if !ov {
                            r
                        } else if neg {
                            1u128 << (w - 1)
                        } else {
                            m >> 1
                        }));
                    }
                } else {
                    ov = match bop {
                        Bin::Add => x + y > m,
                        Bin::Sub => x < y,
                        _ => x.checked_mul(y).map_or(true, |t| t > m),
                    };
                    if sat {
                        return Ok(Val::C(if !ov {
                            r
                        } else if bop == Bin::Sub {
                            0
                        } else {
                            m
                        }));
                    }
                }
                return Ok(Val::A(vec![Val::C(r), Val::C(ov as u128)].into()));
            }
            let r = ex.ibin(st, bop, w, &a[0], &a[1])?;
            // the overflow condition
            let ov = match (bop, signed) {
                (Bin::Add, false) => ex.icmp(st, IPred::Ult, w, &r, &a[0])?,
                (Bin::Sub, false) => ex.icmp(st, IPred::Ult, w, &a[0], &a[1])?,
                (_, false) => {
                    let (x, y) = (ex.bvt(&a[0], w)?, ex.bvt(&a[1], w)?);
                    let (x, y) = (ex.tm.zext(2 * w, x), ex.tm.zext(2 * w, y));
                    let p = ex.tm.bvbin(Bin::Mul, 2 * w, x, y);
                    let h = ex.tm.extract(2 * w - 1, w, p);
                    let z = ex.tm.bvc(w, 0);
                    let e = ex.tm.bveq(h, z);
                    let ne = ex.tm.not(e);
                    ex.norm(ne)
                }
                _ => return unsup("signed overflow on symbolic values"),
            };
            if sat {
                let o = ex.decide_val(st, &ov)?;
                return Ok(if !o {
                    r
                } else if bop == Bin::Sub {
                    Val::C(0)
                } else {
                    Val::C(m)
                });
            }
            Ok(Val::A(vec![r, ov].into()))
        }
        "abs" => {
            let neg = ex.icmp(st, IPred::Slt, w, &a[0], &Val::C(0))?;
            if ex.decide_val(st, &neg)? {
                ex.ibin(st, Bin::Sub, w, &Val::C(0), &a[0])
            } else {
                Ok(a[0].clone())
            }
        }
        "fabs" => ex.fun(st, FOp::Abs, &a[0]),
        "sqrt" => ex.fun(st, FOp::Sqrt, &a[0]),
        "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
            let nan = |v: &Val| matches!(v, Val::C(x) if f64::from_bits(*x as u64).is_nan());
            if nan(&a[0]) {
                return Ok(a[1].clone());
            }
            if nan(&a[1]) {
                return Ok(a[0].clone());
            }
            let p = if op.starts_with("min") { FPred::Olt } else { FPred::Ogt };
            let cnd = ex.fcmp(p, &Ty::F64, &a[0], &a[1])?;
            Ok(if ex.decide_val(st, &cnd)? { a[0].clone() } else { a[1].clone() })
        }
        "fptoui" | "fptosi" => {
            // saturating conversions
            if !allc {
                return unsup("symbolic float to int");
            }
            let f = f64::from_bits(a[0].c() as u64);
            let rw = rty.bits();
            Ok(Val::C(if op == "fptoui" {
                (f as u128).min(mask(rw))
            } else {
                let hi = (mask(rw) >> 1) as i128;
                ((f as i128).clamp(-hi - 1, hi)) as u128 & mask(rw)
            }))
        }
        "floor" | "ceil" | "trunc" | "rint" | "round" | "pow" | "powi" | "copysign" | "log" | "log2" | "exp" if allc => {
            let f = f64::from_bits(a[0].c() as u64);
            let r = match op {
                "floor" => f.floor(),
                "ceil" => f.ceil(),
                "trunc" => f.trunc(),
                "rint" => f.round_ties_even(),
                "round" => f.round(),
                "powi" => f.powi(a[1].c() as i32),
                "copysign" => f.copysign(f64::from_bits(a[1].c() as u64)),
                "pow" => f.powf(f64::from_bits(a[1].c() as u64)),
                "log" => f.ln(),
                "log2" => f.log2(),
                _ => f.exp(),
            };
            Ok(Val::C(r.to_bits() as u128))
        }
        "fmuladd" | "fma" => {
            let p = ex.bin(st, Bin::FMul, &Ty::F64, &a[0], &a[1])?;
            ex.bin(st, Bin::FAdd, &Ty::F64, &p, &a[2])
        }
        _ => unsup(format!("llvm intrinsic {} {:?}", base.join("."), rty)),
    }
}

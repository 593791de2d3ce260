//! Verification model of rsmpi 0.6: all ranks are threads of one process that hand over control
//! explicitly, so exactly one of them runs at any time.
//!
//! A rank runs until it has to wait. Every operation except a wildcard receive has a deterministic
//! outcome, so the order of the ranks in between does not matter. A wildcard receive is decided
//! only when no other rank can continue: then all messages that may arrive first are there, and
//! which sender is matched is a choice (of the solver, within the window of open choices).
//! Messages of one sender do not overtake each other. Sends either buffer or wait until they are
//! received, the root of a broadcast either continues or waits for the others (`sync`).
//!
//! Errors of the program are failed checks: deadlocks, collective operations that do not match,
//! buffers of the wrong size, communication before initialisation or after finalisation.
#![allow(static_mut_refs, clippy::all)]
use std::os::raw::c_int;

pub type Error = c_int;
pub type Count = c_int;
pub type Tag = c_int;
pub type Address = isize;
pub type Rank = c_int;

#[doc(hidden)]
pub mod model {
    extern "C" {
        fn __sym_choice(n: u64) -> u64;
        fn __sym_spawn(f: extern "C" fn(*mut u8), arg: *mut u8, user: u64) -> u64;
        fn __sym_wait_ne(p: *const u64, v: u64);
        fn __sym_self() -> u64;
        fn __sym_check(b: bool, p: *const u8, n: usize);
    }
    #[inline(never)]
    pub fn fail(what: &'static str) -> ! {
        unsafe {
            __sym_check(false, what.as_ptr(), what.len());
        }
        panic!("{}", what)
    }

    pub struct Msg {
        pub id: u64,
        pub src: usize,
        pub dst: usize,
        pub tag: i32,
        pub data: Data,
    }
    /// the raw contents of a buffer
    pub struct Data {
        pub words: Vec<u64>,
        pub bytes: usize,
    }
    impl Data {
        pub fn new(p: *const u8, bytes: usize) -> Data {
            let mut words = vec![0u64; (bytes + 7) / 8];
            unsafe { std::ptr::copy_nonoverlapping(p, words.as_mut_ptr() as *mut u8, bytes) };
            Data { words, bytes }
        }
        pub fn put(&self, p: *mut u8) {
            unsafe { std::ptr::copy_nonoverlapping(self.words.as_ptr() as *const u8, p, self.bytes) };
        }
        pub fn ptr(&self) -> *const u8 {
            self.words.as_ptr() as *const u8
        }
        pub fn ptr_mut(&mut self) -> *mut u8 {
            self.words.as_mut_ptr() as *mut u8
        }
        pub fn dup(&self) -> Data {
            Data { words: self.words.clone(), bytes: self.bytes }
        }
    }
    #[derive(Clone, Copy, PartialEq)]
    pub enum Want {
        Run,
        /// source (-1: any), tag (-1: any)
        Recv(i32, i32),
        /// number of the message that has to be received
        Sent(u64),
        /// collective operation, and whose contribution is missing (usize::MAX: everybody's)
        Coll(usize, usize),
        Done,
    }
    pub struct Coll {
        pub kind: u32,
        pub root: usize,
        pub arrived: u64,
        pub parts: Vec<Option<Data>>,
        pub result: Option<Data>,
    }
    pub struct World {
        pub size: usize,
        pub sync: bool,
        /// choices before the window and behind it follow the policy
        pub policy: u64,
        pub window: (u64, u64),
        pub decided: u64,
        pub last: usize,
        pub gate: Vec<u64>,
        pub started: Vec<bool>,
        pub want: Vec<Want>,
        /// 0: not initialised, 1: running, 2: finalised
        pub state: Vec<u8>,
        pub queue: Vec<Msg>,
        pub next_id: u64,
        pub colls: Vec<Coll>,
        pub next_coll: Vec<usize>,
        pub main: u64,
        pub f: fn(usize),
    }
    pub static mut WORLD: Option<Box<World>> = None;

    #[inline(never)]
    pub fn w() -> &'static mut World {
        unsafe { WORLD.as_mut().expect("no MPI world") }
    }
    #[inline(never)]
    pub fn me() -> usize {
        let u = unsafe { __sym_self() } as usize;
        if u == 0 {
            fail("MPI is only used by the ranks")
        }
        u - 1
    }
    /// the rank of the calling process, which has to be allowed to communicate
    pub fn active() -> usize {
        let r = me();
        if w().state[r] != 1 {
            fail("MPI is used only between its initialisation and its finalisation")
        }
        r
    }

    /// Run `f(rank)` in `size` processes and return the number of messages nobody received.
    pub fn run(size: usize, sync: bool, policy: u64, window: (u64, u64), f: fn(usize)) -> usize {
        unsafe {
            WORLD = Some(Box::new(World {
                size,
                sync,
                policy,
                window,
                decided: 0,
                last: 0,
                gate: vec![0; size],
                started: vec![false; size],
                want: vec![Want::Run; size],
                state: vec![0; size],
                queue: vec![],
                next_id: 0,
                colls: vec![],
                next_coll: vec![0; size],
                main: 0,
                f,
            }));
            wake(0);
            __sym_wait_ne(&w().main, 0);
            w().queue.len()
        }
    }
    /// let rank `r` continue; it is started when its turn comes for the first time
    fn wake(r: usize) {
        let x = w();
        x.gate[r] = 1;
        if !x.started[r] {
            x.started[r] = true;
            unsafe { __sym_spawn(rank_main, r as *mut u8, r as u64 + 1) };
        }
    }
    extern "C" fn rank_main(p: *mut u8) {
        let r = p as usize;
        (w().f)(r);
        w().want[r] = Want::Done;
        let n = next();
        w().gate[r] = 0;
        if n == usize::MAX {
            w().main = 1;
        } else {
            wake(n);
        }
    }
    fn matching(m: &Msg, dst: usize, src: i32, tag: i32) -> bool {
        m.dst == dst && (src < 0 || m.src == src as usize) && (tag < 0 || m.tag == tag)
    }
    fn ready(r: usize) -> bool {
        let x = w();
        match x.want[r] {
            Want::Run => true,
            Want::Recv(s, t) => s >= 0 && x.queue.iter().any(|m| matching(m, r, s, t)),
            Want::Sent(id) => !x.queue.iter().any(|m| m.id == id),
            Want::Coll(i, from) => {
                let a = x.colls[i].arrived;
                if from == usize::MAX {
                    a == (1 << x.size) - 1
                } else {
                    a >> from & 1 == 1
                }
            }
            Want::Done => false,
        }
    }
    /// a choice left to the caller
    pub const OPEN: usize = usize::MAX;
    #[inline(never)]
    pub fn choose(k: usize) -> usize {
        let x = w();
        if k == 1 {
            return 0;
        }
        let i = x.decided;
        x.decided += 1;
        if i >= x.window.0 && i - x.window.0 < x.window.1 {
            return unsafe { __sym_choice(k as u64) } as usize;
        }
        match x.policy {
            0 | 3 | 4 => OPEN,
            1 => k - 1,
            p => ((i.wrapping_mul(6364136223846793005).wrapping_add(p.wrapping_mul(1442695040888963407)) >> 33) % k as u64) as usize,
        }
    }
    /// who continues; usize::MAX: everybody has finished
    fn next() -> usize {
        let x = w();
        for r in 0..x.size {
            if ready(r) {
                return r;
            }
        }
        for r in 0..x.size {
            if let Want::Recv(-1, t) = x.want[r] {
                let c: Vec<usize> = (0..x.size).filter(|&s| x.queue.iter().any(|m| matching(m, r, s as i32, t))).collect();
                if !c.is_empty() {
                    let mut by_age = c.clone();
                    by_age.sort_by_key(|&s| x.queue.iter().find(|m| matching(m, r, s as i32, t)).unwrap().id);
                    let s = match (choose(c.len()), x.policy) {
                        // the sender that has waited longest, shortest
                        (OPEN, 3) => by_age[0],
                        (OPEN, 4) => by_age[c.len() - 1],
                        (OPEN, _) => c[0],
                        (k, _) => c[k],
                    };
                    x.want[r] = Want::Recv(s as i32, t);
                    return r;
                }
            }
        }
        if x.want.iter().all(|&y| y == Want::Done) {
            return usize::MAX;
        }
        fail("the processes do not wait for each other forever (no deadlock)")
    }
    #[inline(never)]
    pub fn block(want: Want) -> Want {
        let r = me();
        let x = w();
        x.want[r] = want;
        let n = next();
        if n != r {
            x.gate[r] = 0;
            wake(n);
            unsafe { __sym_wait_ne(&w().gate[r], 0) };
        }
        let got = w().want[r];
        w().want[r] = Want::Run;
        got
    }

    pub fn send(dst: i32, tag: i32, data: Data, wait: Option<bool>) {
        let r = active();
        let x = w();
        if dst < 0 || dst as usize >= x.size {
            fail("messages are sent to existing ranks")
        }
        let id = x.next_id;
        x.next_id += 1;
        x.queue.push(Msg { id, src: r, dst: dst as usize, tag, data });
        if wait.unwrap_or(x.sync) {
            block(Want::Sent(id));
        }
    }
    fn find(src: i32, tag: i32) -> usize {
        let r = active();
        if src >= w().size as i32 {
            fail("messages are received from existing ranks")
        }
        let (src, tag) = match block(Want::Recv(src, tag)) {
            Want::Recv(s, t) => (s, t),
            _ => (src, tag),
        };
        w().queue.iter().position(|m| matching(m, r, src, tag)).unwrap_or_else(|| fail("a message is there"))
    }
    pub fn receive(src: i32, tag: i32) -> Msg {
        let i = find(src, tag);
        w().queue.remove(i)
    }
    pub fn probe(src: i32, tag: i32) -> (i32, i32, usize) {
        let i = find(src, tag);
        let m = &w().queue[i];
        (m.src as i32, m.tag, m.data.bytes)
    }

    /// Take part in the next collective operation of this process.
    pub fn arrive(kind: u32, root: usize, part: Option<Data>) -> usize {
        let r = active();
        let x = w();
        let i = x.next_coll[r];
        x.next_coll[r] += 1;
        if i == x.colls.len() {
            let parts = (0..x.size).map(|_| None).collect();
            x.colls.push(Coll { kind, root, arrived: 0, parts, result: None });
        }
        let c = &mut x.colls[i];
        if c.kind != kind || c.root != root {
            fail("all processes take part in the same collective operations")
        }
        c.arrived |= 1 << r;
        c.parts[r] = part;
        i
    }
    pub fn wait_all(i: usize) {
        block(Want::Coll(i, usize::MAX));
    }
    pub fn wait_from(i: usize, from: usize) {
        block(Want::Coll(i, from));
    }
    pub const BARRIER: u32 = 1;
    pub const BROADCAST: u32 = 2;
    pub const REDUCE: u32 = 3;
    pub const ALL_REDUCE: u32 = 4;
    pub const GATHER: u32 = 5;
    pub const ALL_GATHER: u32 = 6;
    pub const SCATTER: u32 = 7;
    pub const SCAN: u32 = 8;
    pub const ALL_TO_ALL: u32 = 9;

    pub fn part(i: usize, r: usize) -> &'static Data {
        w().colls[i].parts[r].as_ref().unwrap_or_else(|| fail("every process contributes to the collective operation"))
    }
    /// combine the contributions in an order that the operation permits; computed once
    pub fn combined(i: usize, commutative: bool, apply: &dyn Fn(*const u8, *mut u8)) -> &'static Data {
        if w().colls[i].result.is_none() {
            let n = w().size;
            let mut rest: Vec<usize> = (0..n).collect();
            let bytes = part(i, 0).bytes;
            for r in 0..n {
                if part(i, r).bytes != bytes {
                    fail("the buffers of a reduction have the same size")
                }
            }
            let mut acc: Option<Data> = None;
            while !rest.is_empty() {
                // operands keep their order unless the operation is commutative
                let k = if commutative { choose(rest.len()) } else { rest.len() - 1 };
                let k = if k == OPEN { 0 } else { k };
                let r = rest.remove(k);
                match &mut acc {
                    None => acc = Some(part(i, r).dup()),
                    Some(a) => apply(part(i, r).ptr(), a.ptr_mut()),
                }
            }
            w().colls[i].result = acc;
        }
        w().colls[i].result.as_ref().unwrap()
    }
}

pub mod datatype {
    //! Buffers; messages are plain bytes.
    pub mod traits {
        pub use super::{Buffer, BufferMut, Equivalence};
    }
    /// how a system operation treats an element
    #[derive(Clone, Copy, PartialEq)]
    #[doc(hidden)]
    pub enum Kind {
        Opaque,
        F64,
        F32,
        Signed,
        Unsigned,
    }
    pub unsafe trait Equivalence {
        #[doc(hidden)]
        fn __kind() -> Kind {
            Kind::Opaque
        }
    }
    macro_rules! eq {
        ($k:ident: $($t:ty),*) => { $( unsafe impl Equivalence for $t { fn __kind() -> Kind { Kind::$k } } )* };
    }
    eq!(F64: f64);
    eq!(F32: f32);
    eq!(Signed: i8, i16, i32, i64, isize);
    eq!(Unsigned: u8, u16, u32, u64, usize);
    eq!(Opaque: bool, char);

    pub unsafe trait Buffer {
        type __Elem: Equivalence;
        #[doc(hidden)]
        fn __ptr(&self) -> *const u8;
        #[doc(hidden)]
        fn __len(&self) -> usize;
        #[doc(hidden)]
        fn __data(&self) -> crate::model::Data {
            crate::model::Data::new(self.__ptr(), self.__len() * std::mem::size_of::<Self::__Elem>())
        }
    }
    pub unsafe trait BufferMut: Buffer {
        #[doc(hidden)]
        fn __ptr_mut(&mut self) -> *mut u8;
        #[doc(hidden)]
        fn __bytes(&self) -> usize {
            self.__len() * std::mem::size_of::<Self::__Elem>()
        }
    }
    macro_rules! buf {
        ([$($g:tt)*] $t:ty, $e:ty, $s:ident => $len:expr, $p:expr, $m:expr) => {
            unsafe impl<$($g)*> Buffer for $t {
                type __Elem = $e;
                fn __ptr(&self) -> *const u8 { let $s = self; $p as *const u8 }
                fn __len(&self) -> usize { let $s = self; $len }
            }
            unsafe impl<$($g)*> BufferMut for $t {
                fn __ptr_mut(&mut self) -> *mut u8 { let $s = self; $m as *mut u8 }
            }
        };
    }
    buf!([T: Equivalence] T, T, s => { let _ = s; 1 }, s as *const T, s as *mut T);
    buf!([T: Equivalence] [T], T, s => s.len(), s.as_ptr(), s.as_mut_ptr());
    buf!([T: Equivalence] Vec<T>, T, s => s.len(), s.as_ptr(), s.as_mut_ptr());
    buf!([T: Equivalence, const D: usize] [T; D], T, s => { let _ = s; D }, s.as_ptr(), s.as_mut_ptr());

    pub struct DynBuffer<'a> {
        ptr: *const u8,
        len: usize,
        name: &'static str,
        _m: std::marker::PhantomData<&'a u8>,
    }
    pub struct DynBufferMut<'a> {
        ptr: *mut u8,
        len: usize,
        name: &'static str,
        _m: std::marker::PhantomData<&'a mut u8>,
    }
    impl<'a> DynBuffer<'a> {
        #[doc(hidden)]
        pub fn __new<T: Equivalence>(ptr: *const u8, len: usize) -> Self {
            DynBuffer { ptr, len, name: std::any::type_name::<T>(), _m: std::marker::PhantomData }
        }
        pub fn is<T: Equivalence>(&self) -> bool {
            self.name == std::any::type_name::<T>()
        }
        pub fn downcast<T: Equivalence>(self) -> Option<&'a [T]> {
            if self.is::<T>() {
                Some(unsafe { std::slice::from_raw_parts(self.ptr as *const T, self.len) })
            } else {
                None
            }
        }
        pub fn len(&self) -> usize {
            self.len
        }
        pub fn is_empty(&self) -> bool {
            self.len == 0
        }
    }
    impl<'a> DynBufferMut<'a> {
        #[doc(hidden)]
        pub fn __new<T: Equivalence>(ptr: *mut u8, len: usize) -> Self {
            DynBufferMut { ptr, len, name: std::any::type_name::<T>(), _m: std::marker::PhantomData }
        }
        pub fn is<T: Equivalence>(&self) -> bool {
            self.name == std::any::type_name::<T>()
        }
        pub fn downcast<T: Equivalence>(self) -> Option<&'a mut [T]> {
            if self.is::<T>() {
                Some(unsafe { std::slice::from_raw_parts_mut(self.ptr as *mut T, self.len) })
            } else {
                None
            }
        }
        pub fn len(&self) -> usize {
            self.len
        }
        pub fn is_empty(&self) -> bool {
            self.len == 0
        }
    }
}

pub mod topology {
    pub use crate::Rank;
    use crate::model;
    pub mod traits {
        pub use super::{AsCommunicator, Communicator};
    }
    pub trait AsCommunicator {
        type Out: Communicator;
        fn as_communicator(&self) -> &Self::Out;
    }
    #[derive(Clone, Copy, Debug)]
    pub struct SystemCommunicator(());
    impl SystemCommunicator {
        pub fn world() -> SystemCommunicator {
            model::active();
            SystemCommunicator(())
        }
    }
    impl AsCommunicator for SystemCommunicator {
        type Out = SystemCommunicator;
        fn as_communicator(&self) -> &Self::Out {
            self
        }
    }
    impl Communicator for SystemCommunicator {}
    pub trait Communicator {
        fn size(&self) -> Rank {
            model::active();
            model::w().size as Rank
        }
        fn rank(&self) -> Rank {
            model::active() as Rank
        }
        fn process_at_rank(&self, r: Rank) -> Process<'_, Self>
        where
            Self: Sized,
        {
            if r < 0 || r >= model::w().size as Rank {
                panic!("process_at_rank: no such rank")
            }
            Process { comm: self, rank: r }
        }
        fn any_process(&self) -> AnyProcess<'_, Self>
        where
            Self: Sized,
        {
            AnyProcess(self)
        }
        fn this_process(&self) -> Process<'_, Self>
        where
            Self: Sized,
        {
            let rank = self.rank();
            self.process_at_rank(rank)
        }
        fn abort(&self, _errorcode: i32) -> ! {
            panic!("MPI_Abort")
        }
    }
    #[derive(Clone, Copy)]
    pub struct Process<'a, C: Communicator> {
        comm: &'a C,
        rank: Rank,
    }
    impl<'a, C: Communicator> Process<'a, C> {
        pub fn rank(&self) -> Rank {
            self.rank
        }
    }
    impl<'a, C: Communicator> AsCommunicator for Process<'a, C> {
        type Out = C;
        fn as_communicator(&self) -> &C {
            self.comm
        }
    }
    pub struct AnyProcess<'a, C: Communicator>(pub(crate) &'a C);
    impl<'a, C: Communicator> AsCommunicator for AnyProcess<'a, C> {
        type Out = C;
        fn as_communicator(&self) -> &C {
            self.0
        }
    }
}

pub mod point_to_point {
    use crate::datatype::{Buffer, BufferMut, Equivalence};
    use crate::model;
    use crate::topology::{AnyProcess, AsCommunicator, Communicator, Process};
    use crate::{Count, Rank, Tag};
    pub mod traits {
        pub use super::{Destination, Source};
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Status {
        src: Rank,
        tag: Tag,
        bytes: usize,
    }
    impl Status {
        pub fn source_rank(&self) -> Rank {
            self.src
        }
        pub fn tag(&self) -> Tag {
            self.tag
        }
        #[doc(hidden)]
        pub fn __bytes(&self) -> Count {
            self.bytes as Count
        }
    }
    fn status(m: &model::Msg) -> Status {
        Status { src: m.src as Rank, tag: m.tag, bytes: m.data.bytes }
    }
    fn one<M: Equivalence>(m: model::Msg) -> (M, Status) {
        if m.data.bytes != std::mem::size_of::<M>() {
            model::fail("a message has the size that its receiver expects")
        }
        let mut x = std::mem::MaybeUninit::<M>::uninit();
        m.data.put(x.as_mut_ptr() as *mut u8);
        (unsafe { x.assume_init() }, status(&m))
    }
    fn vec<M: Equivalence>(m: model::Msg) -> (Vec<M>, Status) {
        let s = std::mem::size_of::<M>();
        if m.data.bytes % s != 0 {
            model::fail("a message consists of whole elements")
        }
        let n = m.data.bytes / s;
        let mut v = Vec::<M>::with_capacity(n);
        m.data.put(v.as_mut_ptr() as *mut u8);
        unsafe { v.set_len(n) };
        (v, status(&m))
    }
    fn into<B: BufferMut + ?Sized>(m: model::Msg, b: &mut B) -> Status {
        if m.data.bytes > b.__bytes() {
            model::fail("a message fits into the buffer of its receiver")
        }
        m.data.put(b.__ptr_mut());
        status(&m)
    }
    pub trait Source: AsCommunicator {
        fn source_rank(&self) -> Rank;
        fn receive_with_tag<M: Equivalence>(&self, tag: Tag) -> (M, Status) {
            one(model::receive(self.source_rank(), tag))
        }
        fn receive<M: Equivalence>(&self) -> (M, Status) {
            one(model::receive(self.source_rank(), -1))
        }
        fn receive_vec_with_tag<M: Equivalence>(&self, tag: Tag) -> (Vec<M>, Status) {
            vec(model::receive(self.source_rank(), tag))
        }
        fn receive_vec<M: Equivalence>(&self) -> (Vec<M>, Status) {
            vec(model::receive(self.source_rank(), -1))
        }
        fn receive_into_with_tag<B: BufferMut + ?Sized>(&self, buf: &mut B, tag: Tag) -> Status {
            into(model::receive(self.source_rank(), tag), buf)
        }
        fn receive_into<B: BufferMut + ?Sized>(&self, buf: &mut B) -> Status {
            into(model::receive(self.source_rank(), -1), buf)
        }
        fn probe_with_tag(&self, tag: Tag) -> Status {
            let (src, tag, bytes) = model::probe(self.source_rank(), tag);
            Status { src, tag, bytes }
        }
        fn probe(&self) -> Status {
            self.probe_with_tag(-1)
        }
    }
    impl<'a, C: Communicator> Source for Process<'a, C> {
        fn source_rank(&self) -> Rank {
            self.rank()
        }
    }
    impl<'a, C: Communicator> Source for AnyProcess<'a, C> {
        fn source_rank(&self) -> Rank {
            -1
        }
    }
    pub trait Destination: AsCommunicator {
        fn destination_rank(&self) -> Rank;
        fn send_with_tag<B: Buffer + ?Sized>(&self, buf: &B, tag: Tag) {
            model::send(self.destination_rank(), tag, buf.__data(), None)
        }
        fn send<B: Buffer + ?Sized>(&self, buf: &B) {
            self.send_with_tag(buf, 0)
        }
        fn buffered_send_with_tag<B: Buffer + ?Sized>(&self, buf: &B, tag: Tag) {
            model::send(self.destination_rank(), tag, buf.__data(), Some(false))
        }
        fn buffered_send<B: Buffer + ?Sized>(&self, buf: &B) {
            self.buffered_send_with_tag(buf, 0)
        }
        fn synchronous_send_with_tag<B: Buffer + ?Sized>(&self, buf: &B, tag: Tag) {
            model::send(self.destination_rank(), tag, buf.__data(), Some(true))
        }
        fn synchronous_send<B: Buffer + ?Sized>(&self, buf: &B) {
            self.synchronous_send_with_tag(buf, 0)
        }
    }
    impl<'a, C: Communicator> Destination for Process<'a, C> {
        fn destination_rank(&self) -> Rank {
            self.rank()
        }
    }
    pub fn send_receive<R: Equivalence, M: Equivalence, D: Destination, S: Source>(
        msg: &M,
        destination: &D,
        source: &S,
    ) -> (R, Status) {
        model::send(destination.destination_rank(), 0, msg.__data(), Some(false));
        source.receive()
    }
}

pub mod collective {
    use crate::datatype::{Buffer, BufferMut, DynBuffer, DynBufferMut, Equivalence, Kind};
    use crate::model;
    use crate::topology::{AsCommunicator, Communicator, Process};
    use crate::Rank;
    pub mod traits {
        pub use super::{CommunicatorCollectives, Operation, Root};
    }
    fn fit(d: &model::Data, bytes: usize, p: *mut u8) {
        if d.bytes != bytes {
            model::fail("the buffers of a collective operation have the same size")
        }
        d.put(p);
    }
    fn reduce<O: Operation, S: Buffer + ?Sized>(i: usize, s: &S, op: &O) -> &'static model::Data {
        let n = s.__len();
        model::combined(i, op.is_commutative(), &|x, y| op.__apply::<S::__Elem>(x, y, n))
    }
    pub trait CommunicatorCollectives: Communicator {
        fn barrier(&self) {
            let i = model::arrive(model::BARRIER, 0, None);
            model::wait_all(i);
        }
        fn all_reduce_into<S: Buffer + ?Sized, R: BufferMut + ?Sized, O: Operation>(&self, sendbuf: &S, recvbuf: &mut R, op: O) {
            let i = model::arrive(model::ALL_REDUCE | op.__id() << 8, 0, Some(sendbuf.__data()));
            model::wait_all(i);
            fit(reduce(i, sendbuf, &op), recvbuf.__bytes(), recvbuf.__ptr_mut());
        }
        fn all_gather_into<S: Buffer + ?Sized, R: BufferMut + ?Sized>(&self, sendbuf: &S, recvbuf: &mut R) {
            let i = model::arrive(model::ALL_GATHER, 0, Some(sendbuf.__data()));
            model::wait_all(i);
            let n = model::w().size;
            let k = recvbuf.__bytes() / n;
            for r in 0..n {
                fit(model::part(i, r), k, unsafe { recvbuf.__ptr_mut().add(k * r) });
            }
        }
        fn scan_into<S: Buffer + ?Sized, R: BufferMut + ?Sized, O: Operation>(&self, sendbuf: &S, recvbuf: &mut R, op: O) {
            let i = model::arrive(model::SCAN | op.__id() << 8, 0, Some(sendbuf.__data()));
            model::wait_all(i);
            let me = model::me();
            let n = sendbuf.__len();
            let mut acc = model::part(i, me).dup();
            for r in (0..me).rev() {
                op.__apply::<S::__Elem>(model::part(i, r).ptr(), acc.ptr_mut(), n);
            }
            fit(&acc, recvbuf.__bytes(), recvbuf.__ptr_mut());
        }
    }
    impl<C: Communicator> CommunicatorCollectives for C {}

    pub trait Root: AsCommunicator {
        fn root_rank(&self) -> Rank;
        fn broadcast_into<B: BufferMut + ?Sized>(&self, buffer: &mut B) {
            let root = self.root_rank() as usize;
            let me = model::active();
            let part = if me == root { Some(buffer.__data()) } else { None };
            let i = model::arrive(model::BROADCAST, root, part);
            if me == root {
                if model::w().sync {
                    model::wait_all(i);
                }
            } else {
                model::wait_from(i, root);
                fit(model::part(i, root), buffer.__bytes(), buffer.__ptr_mut());
            }
        }
        fn reduce_into<S: Buffer + ?Sized, O: Operation>(&self, sendbuf: &S, op: O) {
            let root = self.root_rank() as usize;
            if model::active() == root {
                model::fail("the root of a reduction receives its result")
            }
            let i = model::arrive(model::REDUCE | op.__id() << 8, root, Some(sendbuf.__data()));
            if model::w().sync {
                model::wait_all(i);
            }
        }
        fn reduce_into_root<S: Buffer + ?Sized, R: BufferMut + ?Sized, O: Operation>(&self, sendbuf: &S, recvbuf: &mut R, op: O) {
            let root = self.root_rank() as usize;
            if model::active() != root {
                model::fail("only the root of a reduction receives its result")
            }
            let i = model::arrive(model::REDUCE | op.__id() << 8, root, Some(sendbuf.__data()));
            model::wait_all(i);
            fit(reduce(i, sendbuf, &op), recvbuf.__bytes(), recvbuf.__ptr_mut());
        }
        fn gather_into<S: Buffer + ?Sized>(&self, sendbuf: &S) {
            let root = self.root_rank() as usize;
            if model::active() == root {
                model::fail("the root of a gather receives its result")
            }
            model::arrive(model::GATHER, root, Some(sendbuf.__data()));
        }
        fn gather_into_root<S: Buffer + ?Sized, R: BufferMut + ?Sized>(&self, sendbuf: &S, recvbuf: &mut R) {
            let root = self.root_rank() as usize;
            let i = model::arrive(model::GATHER, root, Some(sendbuf.__data()));
            model::wait_all(i);
            let n = model::w().size;
            let k = recvbuf.__bytes() / n;
            for r in 0..n {
                fit(model::part(i, r), k, unsafe { recvbuf.__ptr_mut().add(k * r) });
            }
        }
        fn scatter_into<R: BufferMut + ?Sized>(&self, recvbuf: &mut R) {
            let root = self.root_rank() as usize;
            let i = model::arrive(model::SCATTER, root, None);
            model::wait_from(i, root);
            scattered(i, root, recvbuf);
        }
        fn scatter_into_root<S: Buffer + ?Sized, R: BufferMut + ?Sized>(&self, sendbuf: &S, recvbuf: &mut R) {
            let root = self.root_rank() as usize;
            let i = model::arrive(model::SCATTER, root, Some(sendbuf.__data()));
            scattered(i, root, recvbuf);
        }
    }
    fn scattered<R: BufferMut + ?Sized>(i: usize, root: usize, recvbuf: &mut R) {
        let d = model::part(i, root);
        let k = recvbuf.__bytes();
        if d.bytes != k * model::w().size {
            model::fail("the buffers of a collective operation have the same size")
        }
        unsafe { std::ptr::copy_nonoverlapping(d.ptr().add(k * model::me()), recvbuf.__ptr_mut(), k) };
    }
    impl<'a, C: Communicator> Root for Process<'a, C> {
        fn root_rank(&self) -> Rank {
            self.rank()
        }
    }

    pub trait Operation {
        fn is_commutative(&self) -> bool {
            true
        }
        /// tells the operations apart, as far as possible: all processes have to pass the same one
        #[doc(hidden)]
        fn __id(&self) -> u32 {
            if self.is_commutative() {
                100
            } else {
                101
            }
        }
        #[doc(hidden)]
        fn __apply<T: Equivalence>(&self, x: *const u8, y: *mut u8, n: usize);
    }
    impl<'a, O: Operation> Operation for &'a O {
        fn is_commutative(&self) -> bool {
            (**self).is_commutative()
        }
        fn __id(&self) -> u32 {
            (**self).__id()
        }
        fn __apply<T: Equivalence>(&self, x: *const u8, y: *mut u8, n: usize) {
            (**self).__apply::<T>(x, y, n)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum SystemOperation {
        #[doc(hidden)]
        Max,
        #[doc(hidden)]
        Min,
        #[doc(hidden)]
        Sum,
        #[doc(hidden)]
        Product,
        #[doc(hidden)]
        And,
        #[doc(hidden)]
        Or,
    }
    impl SystemOperation {
        pub fn max() -> Self {
            SystemOperation::Max
        }
        pub fn min() -> Self {
            SystemOperation::Min
        }
        pub fn sum() -> Self {
            SystemOperation::Sum
        }
        pub fn product() -> Self {
            SystemOperation::Product
        }
        pub fn logical_and() -> Self {
            SystemOperation::And
        }
        pub fn logical_or() -> Self {
            SystemOperation::Or
        }
    }
    impl Operation for SystemOperation {
        fn __id(&self) -> u32 {
            match self {
                SystemOperation::Max => 1,
                SystemOperation::Min => 2,
                SystemOperation::Sum => 3,
                SystemOperation::Product => 4,
                SystemOperation::And => 5,
                SystemOperation::Or => 6,
            }
        }
        fn __apply<T: Equivalence>(&self, x: *const u8, y: *mut u8, n: usize) {
            macro_rules! go {
                ($t:ty, $zero:expr, $one:expr) => {{
                    for k in 0..n {
                        unsafe {
                            let a = *(x as *const $t).add(k);
                            let p = (y as *mut $t).add(k);
                            let b = *p;
                            *p = match self {
                                SystemOperation::Max => if a > b { a } else { b },
                                SystemOperation::Min => if a < b { a } else { b },
                                SystemOperation::Sum => a + b,
                                SystemOperation::Product => a * b,
                                SystemOperation::And => if a != $zero && b != $zero { $one } else { $zero },
                                SystemOperation::Or => if a != $zero || b != $zero { $one } else { $zero },
                            };
                        }
                    }
                }};
            }
            match (T::__kind(), std::mem::size_of::<T>()) {
                (Kind::F64, _) => go!(f64, 0.0, 1.0),
                (Kind::F32, _) => go!(f32, 0.0, 1.0),
                (Kind::Signed, 4) => go!(i32, 0, 1),
                (Kind::Signed, 8) => go!(i64, 0, 1),
                (Kind::Unsigned, 4) => go!(u32, 0, 1),
                (Kind::Unsigned, 8) => go!(u64, 0, 1),
                (Kind::Unsigned, 1) => go!(u8, 0, 1),
                _ => model::fail("the operation is defined for the elements of the reduction"),
            }
        }
    }
    pub struct UserOperation<'a> {
        commute: bool,
        f: Box<dyn Fn(DynBuffer, DynBufferMut) + Sync + 'a>,
    }
    impl<'a> UserOperation<'a> {
        pub fn associative<F: Fn(DynBuffer, DynBufferMut) + Sync + 'a>(f: F) -> Self {
            UserOperation { commute: false, f: Box::new(f) }
        }
        pub fn commutative<F: Fn(DynBuffer, DynBufferMut) + Sync + 'a>(f: F) -> Self {
            UserOperation { commute: true, f: Box::new(f) }
        }
        pub fn new<F: Fn(DynBuffer, DynBufferMut) + Sync + 'a>(commute: bool, f: F) -> Self {
            UserOperation { commute, f: Box::new(f) }
        }
    }
    impl<'a> Operation for UserOperation<'a> {
        fn is_commutative(&self) -> bool {
            self.commute
        }
        fn __apply<T: Equivalence>(&self, x: *const u8, y: *mut u8, n: usize) {
            (self.f)(DynBuffer::__new::<T>(x, n), DynBufferMut::__new::<T>(y, n))
        }
    }
}

pub mod environment {
    use crate::model;
    use crate::topology::SystemCommunicator;
    /// the initialised library; dropping it finalises MPI
    pub struct Universe {
        _p: (),
    }
    impl Universe {
        pub fn world(&self) -> SystemCommunicator {
            SystemCommunicator::world()
        }
    }
    impl Drop for Universe {
        fn drop(&mut self) {
            model::w().state[model::me()] = 2;
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Threading {
        Single,
        Funneled,
        Serialized,
        Multiple,
    }
    pub fn initialize() -> Option<Universe> {
        let r = model::me();
        if model::w().state[r] != 0 {
            return None;
        }
        model::w().state[r] = 1;
        Some(Universe { _p: () })
    }
    pub fn initialize_with_threading(t: Threading) -> Option<(Universe, Threading)> {
        initialize().map(|u| (u, t))
    }
    pub fn time() -> f64 {
        0.0
    }
}
pub use environment::{initialize, initialize_with_threading, time, Threading};

pub mod traits {
    pub use crate::collective::traits::*;
    pub use crate::datatype::traits::*;
    pub use crate::point_to_point::traits::*;
    pub use crate::topology::traits::*;
    #[cfg(feature = "derive")]
    pub use mpi_derive_stub::Equivalence;
}

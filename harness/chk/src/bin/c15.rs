//! C15: guarded memory is inaccessible while locked, guarded at its edges and wiped.
use chk::{
    engine::runtime::{
        locked_memory::LockedMemory,
        memories::{
            buffer::{Buffer, Ref},
            file_memory::FileMemory,
            frag::{Frag, FragStrategy},
            noncontiguous_memory::{NCConfig, NonContiguousMemory},
            ram_memory::RamMemory,
        },
        Bytes,
    },
    mem::OwnMem,
    *,
};
use crypto::hashes::{blake2b::Blake2b256, Digest};
use std::{
    collections::{BTreeMap, HashMap},
    panic::AssertUnwindSafe,
    path::PathBuf,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Barrier,
    },
};
use vh::prelude::*;
use zeroize::Zeroize;

fn np<T>(what: &str, f: impl FnOnce() -> T) -> vh::R<T> {
    chk::np(what, AssertUnwindSafe(f))
}

// ---------------------------------------------------------------------------------------------
// what the operating system allows, without risking a fault: system calls report bad addresses

struct Pipe(i32, i32);
impl Pipe {
    fn new() -> Pipe {
        let mut f = [0i32; 2];
        assert_eq!(unsafe { libc::pipe(f.as_mut_ptr()) }, 0, "pipe");
        Pipe(f[0], f[1])
    }
    fn can_read(&self, at: usize) -> bool {
        unsafe {
            if libc::write(self.1, at as *const _, 1) != 1 {
                return false;
            }
            let mut b = 0u8;
            libc::read(self.0, &mut b as *mut u8 as *mut _, 1);
            true
        }
    }
    /// Writes `b` there if that is allowed.
    fn can_write(&self, at: usize, b: u8) -> bool {
        unsafe {
            libc::write(self.1, &b as *const u8 as *const _, 1);
            if libc::read(self.0, at as *mut _, 1) == 1 {
                return true;
            }
            let mut b = 0u8;
            libc::read(self.0, &mut b as *mut u8 as *mut _, 1);
            false
        }
    }
}
impl Drop for Pipe {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.0);
            libc::close(self.1);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Right {
    Nothing,
    Read,
    Write,
}

// ---------------------------------------------------------------------------------------------
// rights follow the borrows

#[derive(Clone, Debug, Serialize, Deserialize)]
enum BOp {
    Borrow(u8),
    CloneRef(u16),
    End(u16),
    EndAll,
    Mut(u16, u8),
    Panic(bool),
    Copy,
    Compare,
    Serde,
    Debug,
    Move,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BCase {
    ty: u8,
    pay: Pay,
    ops: Vec<BOp>,
}
fn bcase(_: Tier) -> BoxedStrategy<BCase> {
    let op = prop_oneof![
        4 => (1u8..4).prop_map(BOp::Borrow),
        1 => prop::sample::select(vec![60u8, 127, 128, 129, 200, 252, 253, 254, 255]).prop_map(BOp::Borrow),
        3 => any::<u16>().prop_map(BOp::CloneRef),
        5 => any::<u16>().prop_map(BOp::End),
        1 => Just(BOp::EndAll),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| BOp::Mut(a, b)),
        1 => any::<bool>().prop_map(BOp::Panic),
        1 => Just(BOp::Copy),
        1 => Just(BOp::Compare),
        1 => Just(BOp::Serde),
        1 => Just(BOp::Debug),
        1 => Just(BOp::Move),
    ];
    (0u8..4, (sizes(), 0u16..500).prop_map(|(len, s)| Pay { len, s }), prop::collection::vec(op, 1..16)).prop_map(|(ty, pay, ops)| BCase { ty, pay, ops }).boxed()
}
/// lengths in bytes, around words, pages and multiples of pages
fn sizes() -> BoxedStrategy<u32> {
    prop_oneof![
        5 => 1u32..70,
        1 => Just(0u32),
        2 => (1u32..4, -20i32..20).prop_map(|(p, d)| (p as i32 * 4096 + d) as u32),
        1 => (0u32..16).prop_map(|k| 1 << k),
        1 => 70u32..20000,
    ]
    .boxed()
}
trait Word: Bytes + PartialEq + std::fmt::Debug + Serialize + serde::de::DeserializeOwned + Send + Sync {
    fn of(b: &[u8]) -> Self;
}
macro_rules! word {
    ($($t:ty),*) => {$(impl Word for $t { fn of(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) } })*};
}
word!(u8, u16, u64, u128);
fn words<T: Word>(p: &Pay) -> (Vec<T>, Vec<u8>) {
    let w = std::mem::size_of::<T>();
    let b = Pay { len: p.len / w as u32 * w as u32, s: p.s }.bytes();
    (b.chunks(w).map(T::of).collect(), b)
}

/// The page after the contents, and what lies well before them, never belong to the buffer.
fn check_rights(pipe: &Pipe, at: usize, m: &[u8], want: Right, when: &str) -> vh::R<()> {
    let n = m.len();
    let mut offs = vec![0, n / 2, n.saturating_sub(1)];
    offs.extend((0..n).step_by(4096));
    offs.extend((4095..n).step_by(4096));
    for o in offs {
        if o >= n {
            continue;
        }
        let (r, w) = (pipe.can_read(at + o), pipe.can_write(at + o, m[o]));
        ensure!(r == (want != Right::Nothing), format!("rights:{want:?}"), "{when}: byte {o} of {n} can be read: {r}");
        ensure!(w == (want == Right::Write), format!("rights:{want:?}"), "{when}: byte {o} of {n} can be written: {w}");
    }
    for o in [0, 1, 7, 8, 63, 4095] {
        ensure!(!pipe.can_read(at + n + o), "guard-end", "{when}: byte {o} after the end of {n} bytes can be read");
        ensure!(!pipe.can_write(at + n + o, 0), "guard-end", "{when}: byte {o} after the end of {n} bytes can be written");
    }
    // below the first page of the contents
    let page = (at.saturating_sub(if n == 0 { 16 } else { 0 })) & !4095;
    let canary_page = (at - 16) & !4095;
    let low = page.min(canary_page);
    for o in [1, 4096] {
        ensure!(!pipe.can_write(low - o, 0), "guard-start", "{when}: {o} bytes below the first page can be written");
    }
    Ok(())
}

fn run_rights(c: &BCase) -> vh::R<Out> {
    match c.ty {
        0 => rights_t::<u8>(c),
        1 => rights_t::<u16>(c),
        2 => rights_t::<u64>(c),
        _ => rights_t::<u128>(c),
    }
}
fn rights_t<T: Word>(c: &BCase) -> vh::R<Out> {
    let (v, mut m) = words::<T>(&c.pay);
    let w = std::mem::size_of::<T>();
    let pipe = Pipe::new();
    let mut slot = Box::new(np("alloc", || Buffer::alloc(&v, v.len()))?);
    let at = slot.borrow().as_ptr() as usize;
    check_rights(&pipe, at, &m, Right::Nothing, "after allocation")?;
    let mut depth = 0;
    let mut i = 0;
    // the references borrow the buffer, so histories are cut into stretches between changes
    while i < c.ops.len() {
        match &c.ops[i] {
            BOp::Mut(o, b) => {
                {
                    let mut g = np("borrow_mut", || slot.borrow_mut())?;
                    if !m.is_empty() {
                        let o = *o as usize % m.len();
                        unsafe { *(g.as_mut_ptr() as *mut u8).add(o) = *b };
                        m[o] = *b;
                    }
                    ensure!(g.as_ptr() as usize == at, "moved", "the contents moved");
                    check_rights(&pipe, at, &m, Right::Write, "during a mutable borrow")?;
                }
                check_rights(&pipe, at, &m, Right::Nothing, "after a mutable borrow")?;
                i += 1;
                continue;
            }
            BOp::Panic(true) => {
                let r = vh::no_panic(AssertUnwindSafe(|| {
                    let mut g = slot.borrow_mut();
                    if let Some(x) = g.first_mut() {
                        *x = T::of(&m[..w]);
                    }
                    if g.len() < usize::MAX {
                        panic!("on purpose");
                    }
                }));
                ensure!(r.is_err(), "harness", "the panic did not happen");
                check_rights(&pipe, at, &m, Right::Nothing, "after a panic during a mutable borrow")?;
                i += 1;
                continue;
            }
            BOp::Move => {
                // moving the handle leaves contents and rights alone
                slot = Box::new(*slot);
                ensure!(slot.borrow().as_ptr() as usize == at, "moved", "the contents moved");
                check_rights(&pipe, at, &m, Right::Nothing, "after the handle moved")?;
                i += 1;
                continue;
            }
            _ => {}
        }
        let b: &Buffer<T> = &slot;
        let mut refs: Vec<Ref<'_, T>> = vec![];
        while i < c.ops.len() {
            match &c.ops[i] {
                BOp::Mut(..) | BOp::Panic(true) | BOp::Move => break,
                BOp::Borrow(n) => {
                    for _ in 0..*n {
                        if refs.len() < 255 {
                            refs.push(np("borrow", || b.borrow())?);
                        }
                    }
                }
                BOp::CloneRef(k) => {
                    if !refs.is_empty() && refs.len() < 255 {
                        let r = np("clone of a borrow", || refs[*k as usize % refs.len()].clone())?;
                        refs.push(r);
                    }
                }
                BOp::End(k) => {
                    if !refs.is_empty() {
                        let r = refs.swap_remove(*k as usize % refs.len());
                        np("end of a borrow", move || drop(r))?;
                    }
                }
                BOp::EndAll => refs.clear(),
                BOp::Panic(_) => {
                    if refs.len() < 255 {
                        let r = vh::no_panic(AssertUnwindSafe(|| {
                            let g = b.borrow();
                            if g.len() < usize::MAX {
                                panic!("on purpose");
                            }
                        }));
                        ensure!(r.is_err(), "harness", "the panic did not happen");
                    }
                }
                BOp::Copy if refs.len() < 255 => {
                    let d = np("clone", || b.clone())?;
                    let da = d.borrow().as_ptr() as usize;
                    ensure!(da != at, "copy-shared", "a copy shares the memory");
                    check_rights(&pipe, da, &m, Right::Nothing, "a copy made during borrows")?;
                    let g = d.borrow();
                    ensure!(*g == v[..] || m.len() != c.pay.bytes().len() || raw(&g) == m, "contents", "a copy differs");
                    check_rights(&pipe, da, &m, Right::Read, "a borrowed copy")?;
                    ensure!(raw(&g) == m, "contents", "a copy differs");
                }
                BOp::Compare if refs.len() < 254 => {
                    ensure!(np("==", || b == b)?, "equal", "a buffer differs from itself");
                }
                BOp::Serde if refs.len() < 255 => {
                    np("serialise", || bincode::serialize(b).map(|v| v.len()))?.map_err(|e| Failure::new("serialise", e.to_string()))?;
                }
                BOp::Debug => {
                    let _ = np("debug", || format!("{b:?}"))?;
                }
                _ => {}
            }
            depth = depth.max(refs.len());
            let want = if refs.is_empty() { Right::Nothing } else { Right::Read };
            check_rights(&pipe, at, &m, want, &format!("with {} borrows after {:?}", refs.len(), c.ops[i]))?;
            for r in refs.iter().rev().take(2) {
                ensure!(raw(r) == m, "contents", "borrowed contents differ");
            }
            i += 1;
        }
        drop(refs);
        check_rights(&pipe, at, &m, Right::Nothing, "after all borrows ended")?;
    }
    ensure!(raw(&slot.borrow()) == m, "contents", "contents at the end");
    np("drop", move || drop(slot))?;
    ensure!(m.is_empty() || !pipe.can_write(at, 0), "dropped-writable", "the memory of a dropped buffer can be written");
    Ok(Out::new(depth > 1).tag_if(depth == 255, "255 borrows").tag_if(m.len() > 4096, "several pages"))
}
fn raw<T: Word>(r: &Ref<'_, T>) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(r.as_ptr() as *const u8, std::mem::size_of_val(&r[..])) }.to_vec()
}

// ---------------------------------------------------------------------------------------------
// accesses at and beyond the edges, executed

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Edge {
    len: u32,
    /// 0 locked, 1 shared borrow, 2 mutable borrow
    state: u8,
    write: bool,
    /// relative to the start (false) or the end (true)
    from_end: bool,
    off: i32,
    via_copy: bool,
}
fn edge(_: Tier) -> BoxedStrategy<Edge> {
    (sizes(), 0u8..3, any::<bool>(), any::<bool>(), prop_oneof![4 => -17i32..17, 1 => -4200i32..4200, 1 => prop::sample::select(vec![-4096, -1, 0, 4095])], any::<bool>())
        .prop_map(|(len, state, write, from_end, off, via_copy)| Edge { len, state, write, from_end, off, via_copy })
        .boxed()
}
fn run_edge(c: &Edge) -> vh::R<Out> {
    let n = c.len as i64;
    let off = if c.from_end { n + c.off as i64 } else { c.off as i64 };
    let inside = (0..n).contains(&off);
    let end = vh::probe(|| {
        let mut b = Buffer::alloc(&bytes(c.len as usize, 3), c.len as usize);
        if c.via_copy {
            b = b.clone();
        }
        let at = b.borrow().as_ptr() as usize;
        let p = (at as i64 + off) as *mut u8;
        let act = || unsafe {
            let p = std::hint::black_box(p);
            if c.write {
                let v = if c.state == 2 { !p.read_volatile() } else { 0x77 };
                p.write_volatile(v);
            } else {
                std::hint::black_box(p.read_volatile());
            }
        };
        match c.state {
            0 => act(),
            1 => {
                let g = b.borrow();
                act();
                drop(g);
            }
            _ => {
                let g = b.borrow_mut();
                act();
                drop(g);
            }
        }
        drop(b);
        vec![]
    });
    let survived = matches!(end, vh::ProbeEnd::Exit(_));
    let what = format!("{} {} of a buffer of {n} bytes at {off}", ["locked:", "shared borrow:", "mutable borrow:"][c.state as usize], if c.write { "write" } else { "read" });
    if inside {
        let allowed = match (c.state, c.write) {
            (0, _) | (1, true) => false,
            _ => true,
        };
        ensure!(survived == allowed, if allowed { "access-refused" } else { "access-allowed" }, "{what} ended as {end:?}");
        if !allowed {
            ensure!(matches!(end, vh::ProbeEnd::Signal(_)), "access-not-stopped", "{what} ended as {end:?}");
        }
    } else if off >= n && off < n + 4096 {
        ensure!(matches!(end, vh::ProbeEnd::Signal(_)), "overrun-undetected", "{what} ended as {end:?}");
    } else if off < 0 && off >= -16 && c.write {
        ensure!(matches!(end, vh::ProbeEnd::Signal(_)), "underrun-undetected", "{what} ended as {end:?}");
    } else if off < 0 && c.state == 0 && off >= -4096 {
        ensure!(matches!(end, vh::ProbeEnd::Signal(_)), "locked-underrun", "{what} ended as {end:?}");
    } else {
        return Ok(Out::new(false).tag("not judged"));
    }
    Ok(Out::new(!survived).tag(if inside { "inside" } else if off < 0 { "before the start" } else { "after the end" }))
}

// ---------------------------------------------------------------------------------------------
// wiping. The functions that give memory back are wrapped, to look at it at that moment.

static WATCH: [[AtomicUsize; 3]; 8] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicUsize = AtomicUsize::new(0);
    #[allow(clippy::declare_interior_mutable_const)]
    const R: [AtomicUsize; 3] = [Z; 3];
    [R; 8]
};
const FREED_CLEAN: usize = 1;
const FREED_DIRTY: usize = 2;

/// Watches `len` bytes at `at`; `len` 0 stops.
fn watch(slot: usize, at: usize, len: usize) {
    WATCH[slot][2].store(0, Ordering::SeqCst);
    WATCH[slot][1].store(len, Ordering::SeqCst);
    WATCH[slot][0].store(at, Ordering::SeqCst);
}
fn watched(slot: usize) -> usize {
    WATCH[slot][2].load(Ordering::SeqCst)
}
fn giving_back(lo: usize, hi: usize) {
    for w in &WATCH {
        let (a, n) = (w[0].load(Ordering::SeqCst), w[1].load(Ordering::SeqCst));
        if n == 0 || a < lo || a >= hi {
            continue;
        }
        // readable? (never fault here)
        let mut f = [0i32; 2];
        unsafe {
            if libc::pipe(f.as_mut_ptr()) != 0 {
                continue;
            }
            let mut dirty = 0;
            for i in 0..n.min(hi - a) {
                let mut b = 0u8;
                if libc::write(f[1], (a + i) as *const _, 1) == 1 {
                    libc::read(f[0], &mut b as *mut u8 as *mut _, 1);
                    dirty += (b != 0) as usize;
                }
            }
            libc::close(f[0]);
            libc::close(f[1]);
            w[1].store(0, Ordering::SeqCst);
            w[2].store(if dirty > 0 { FREED_DIRTY } else { FREED_CLEAN }, Ordering::SeqCst);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn munmap(p: *mut libc::c_void, n: libc::size_t) -> libc::c_int {
    giving_back(p as usize, p as usize + n);
    libc::syscall(libc::SYS_munmap, p, n) as libc::c_int
}
extern "C" {
    fn __libc_free(p: *mut libc::c_void);
    fn malloc_usable_size(p: *mut libc::c_void) -> libc::size_t;
}
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut libc::c_void) {
    if !p.is_null() && WATCH.iter().any(|w| w[1].load(Ordering::Relaxed) != 0) {
        giving_back(p as usize, p as usize + malloc_usable_size(p));
    }
    __libc_free(p)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wipe {
    what: u8,
    pay: Pay,
    /// 0 drop, 1 zeroize then drop, 2 replaced by an update / refresh, 3 dropped while unwinding
    end: u8,
    copied: bool,
}
fn wipe(_: Tier) -> BoxedStrategy<Wipe> {
    (0u8..11, (sizes(), 2u16..9000).prop_map(|(len, s)| Pay { len: len.max(1), s }), 0u8..4, any::<bool>()).prop_map(|(what, pay, end, copied)| Wipe { what, pay, end, copied }).boxed()
}
struct Spot {
    at: usize,
    was: Vec<u8>,
}
/// after zeroize: nothing of the former contents is there
fn gone(own: &Option<OwnMem>, s: &Spot, what: &str) -> vh::R<()> {
    if let Some(own) = own {
        if let Some(now) = own.read(s.at, s.was.len()) {
            let same = now.iter().zip(&s.was).filter(|(a, b)| a == b && **b != 0).count();
            let total = s.was.iter().filter(|b| **b != 0).count();
            ensure!(same * 4 <= total.max(8), "not-wiped", "{what}: {same} of {total} bytes of the contents remain in memory");
        }
    }
    Ok(())
}
fn boxed_end<M: Zeroize + 'static>(own: &Option<OwnMem>, spots: &[Spot], m: M, end: u8, what: &str, replace: impl FnOnce(M) -> vh::R<Option<M>>) -> vh::R<u32> {
    for (i, s) in spots.iter().enumerate() {
        watch(i, s.at, s.was.len());
    }
    let mut m = m;
    match end {
        1 => {
            np("zeroize", || m.zeroize())?;
            for s in spots {
                gone(own, s, &format!("{what}, zeroized"))?;
            }
            np("drop", move || drop(m))?;
        }
        2 => {
            let n = replace(m)?;
            for (i, s) in spots.iter().enumerate() {
                if watched(i) == 0 {
                    gone(own, s, &format!("{what}, replaced"))?;
                }
            }
            drop(n);
        }
        3 => {
            let r = vh::no_panic(AssertUnwindSafe(move || {
                let _m = m;
                if spots.len() < 99 {
                    panic!("on purpose");
                }
            }));
            ensure!(r.is_err(), "harness", "the panic did not happen");
        }
        _ => np("drop", move || drop(m))?,
    }
    let mut seen = 0;
    for (i, s) in spots.iter().enumerate() {
        match watched(i) {
            FREED_DIRTY => fail!("freed-unwiped", "{what}: memory is given back with its contents ({} bytes)", s.was.len()),
            FREED_CLEAN => seen += 1,
            // not given back (kept for later, or given back in another way): it must not hold the contents
            _ => gone(own, s, &format!("{what}, dropped"))?,
        }
        watch(i, 0, 0);
    }
    Ok(seen)
}
fn run_wipe(c: &Wipe) -> vh::R<Out> {
    for i in 0..8 {
        watch(i, 0, 0);
    }
    let own = OwnMem::open();
    let p = if c.what >= 3 { Pay { len: 32, s: c.pay.s } } else { c.pay.clone() }.bytes();
    let fresh = bytes(p.len(), 424242);
    let e = |e: engine::runtime::MemoryError| Failure::new("refused", e.to_string());
    let mut tag = "";
    let seen = match c.what {
        0 | 1 => {
            let mut b = Buffer::alloc(&p, p.len());
            if c.copied {
                b = b.clone();
            }
            let s = [Spot { at: b.borrow().as_ptr() as usize, was: p.clone() }];
            tag = "buffer";
            boxed_end(&own, &s, b, c.end, "buffer", |b| {
                // a refreshed value overwrites the old one
                let mut b = b;
                b = Buffer::alloc(&fresh, b.len());
                Ok(Some(b))
            })?
        }
        2 => {
            let Some(o) = &own else { return Ok(Out::new(false).tag("no view of the own memory")) };
            let masked: Vec<u8> = p.iter().map(|b| b ^ 0xa5).collect();
            if p.len() < 8 {
                return Ok(Out::new(false).tag("too short to be found"));
            }
            let before = o.find(&masked, 0xa5);
            let mut m = RamMemory::alloc(&p, p.len()).map_err(e)?;
            if c.copied {
                m = m.clone();
            }
            let s: Vec<Spot> = o.find(&masked, 0xa5).into_iter().filter(|a| !before.contains(a)).map(|at| Spot { at, was: p.clone() }).take(8).collect();
            if s.is_empty() {
                return Ok(Out::new(false).tag("not found"));
            }
            tag = "ram";
            boxed_end(&own, &s, m, c.end, "RAM container", |m| m.update(Buffer::alloc(&fresh, fresh.len()), fresh.len()).map(Some).map_err(e))?
        }
        3..=5 => {
            let strat = [FragStrategy::Map, FragStrategy::Direct, FragStrategy::Hybrid][c.what as usize - 3];
            let v: [u8; 32] = p.clone().try_into().unwrap();
            let (mut f, g) = Frag::alloc_initialized(strat, v, v).map_err(e)?;
            if strat == FragStrategy::Hybrid {
                f = g;
            } else {
                drop(g);
            }
            if c.copied {
                f = f.clone();
            }
            let s = [Spot { at: f.get().map_err(e)? as *const _ as usize, was: p.clone() }];
            tag = "fragment";
            boxed_end(&own, &s, f, c.end, "fragment", |mut f| {
                f.set(fresh.clone().try_into().unwrap()).map_err(e)?;
                Ok(Some(f))
            })?
        }
        k => {
            let cfg = match k {
                6 | 7 => NCConfig::FullRam,
                8 => NCConfig::FragAllocation(FragStrategy::Map),
                9 => NCConfig::FragAllocation(FragStrategy::Direct),
                _ => NCConfig::FragAllocation(FragStrategy::Hybrid),
            };
            let Some(o) = &own else { return Ok(Out::new(false).tag("no view of the own memory")) };
            let before = o.pages();
            let mut m = NonContiguousMemory::alloc(&p, 32, cfg).map_err(e)?;
            if c.copied {
                m = m.clone();
            }
            let s = find_shards(o, &before, &p);
            if s.is_empty() {
                return Ok(Out::new(false).tag(format!("shards not found {k} {}", c.copied)));
            }
            tag = "split container";
            boxed_end(&own, &s, m, c.end, "split container", |m| {
                if c.pay.len % 2 == 0 {
                    m.refresh().map_err(e)?;
                    Ok(Some(m))
                } else {
                    m.update(Buffer::alloc(&fresh, 32), 32).map(Some).map_err(e)
                }
            })?
        }
    };
    Ok(Out::new(true).tag(tag).tag_if(seen > 0, "seen when given back").tag(["dropped", "zeroized", "replaced", "dropped while unwinding"][c.end as usize]))
}
/// Finds two places in memory that is new since `before` whose contents split the payload:
/// the hash of one, combined with the other, gives the payload.
fn find_shards(own: &OwnMem, before: &std::collections::BTreeSet<usize>, payload: &[u8]) -> Vec<Spot> {
    let mut win: Vec<(usize, [u8; 32])> = vec![];
    for pg in own.pages().difference(before) {
        // a share may lie across two pages
        let Some(b) = own.read(*pg, 4096 + 31).or_else(|| own.read(*pg, 4096)) else { continue };
        for i in 0..=b.len() - 32 {
            let w: [u8; 32] = b[i..i + 32].try_into().unwrap();
            let distinct = w.iter().fold([0u64; 4], |mut s, x| {
                s[(*x >> 6) as usize] |= 1 << (x & 63);
                s
            });
            if distinct.iter().map(|d| d.count_ones()).sum::<u32>() > 16 {
                win.push((pg + i, w));
            }
        }
    }
    if win.len() > 40000 {
        return vec![];
    }
    let mut at: HashMap<[u8; 32], usize> = HashMap::new();
    for (a, w) in &win {
        at.insert(*w, *a);
    }
    for (a, w) in &win {
        let h = Blake2b256::digest(w);
        let other: Vec<u8> = h.iter().zip(payload).map(|(x, y)| x ^ y).collect();
        let other: [u8; 32] = other.try_into().unwrap();
        if let Some(b) = at.get(&other) {
            return vec![Spot { at: *a, was: w.to_vec() }, Spot { at: *b, was: other.to_vec() }];
        }
    }
    vec![]
}

// ---------------------------------------------------------------------------------------------
// files

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    kind: u8,
    pay: Pay,
    copied: bool,
    end: u8,
}
fn file_case(_: Tier) -> BoxedStrategy<FileCase> {
    (0u8..3, (sizes(), 2u16..9000).prop_map(|(len, s)| Pay { len: len.max(1), s }), any::<bool>(), 0u8..5).prop_map(|(kind, pay, copied, end)| FileCase { kind, pay, copied, end }).boxed()
}
enum F {
    File(FileMemory),
    Nc(NonContiguousMemory),
}
fn run_files(c: &FileCase) -> vh::R<Out> {
    let td = vh::TempDir::new();
    let old = std::env::var_os("XDG_DATA_HOME");
    std::env::set_var("XDG_DATA_HOME", td.path().join("data"));
    let r = files_in(c, td.path().to_path_buf());
    if let Some(o) = old {
        std::env::set_var("XDG_DATA_HOME", o);
    }
    r
}
fn files_in(c: &FileCase, td: PathBuf) -> vh::R<Out> {
    let p = if c.kind > 0 { Pay { len: 32, s: c.pay.s } } else { c.pay.clone() }.bytes();
    let fresh = bytes(p.len(), 5);
    let e = |e: engine::runtime::MemoryError| Failure::new("refused", e.to_string());
    let dir = td.join("data/.locked_memories");
    let list = || -> Vec<PathBuf> { std::fs::read_dir(&dir).into_iter().flatten().flatten().map(|e| e.path()).collect() };
    let mut m = match c.kind {
        0 => F::File(FileMemory::alloc(&p, p.len()).map_err(e)?),
        1 => F::Nc(NonContiguousMemory::alloc(&p, 32, NCConfig::FullFile).map_err(e)?),
        _ => F::Nc(NonContiguousMemory::alloc(&p, 32, NCConfig::RamAndFile).map_err(e)?),
    };
    let mut links: BTreeMap<PathBuf, (PathBuf, Vec<u8>)> = BTreeMap::new();
    let mut n = 0;
    let mut link = |links: &mut BTreeMap<PathBuf, (PathBuf, Vec<u8>)>| -> vh::R<()> {
        for f in list() {
            if !links.contains_key(&f) {
                n += 1;
                let l = td.join(format!("link{n}"));
                std::fs::hard_link(&f, &l).map_err(|e| Failure::new("harness", format!("link: {e}")))?;
                let b = std::fs::read(&l).map_err(|e| Failure::new("harness", format!("read: {e}")))?;
                links.insert(f, (l, b));
            }
        }
        Ok(())
    };
    link(&mut links)?;
    if links.is_empty() {
        return Ok(Out::new(false).tag("no files where expected"));
    }
    if c.copied {
        let d = match &m {
            F::File(x) => F::File(np("clone", || x.clone())?),
            F::Nc(x) => F::Nc(np("clone", || x.clone())?),
        };
        link(&mut links)?;
        m = d;
    }
    let left = |links: &BTreeMap<PathBuf, (PathBuf, Vec<u8>)>, what: &str, keep: usize| -> vh::R<()> {
        let now = list();
        ensure!(now.len() == keep, "file-left", "{what}: {} files remain instead of {keep}", now.len());
        for (f, (l, was)) in links {
            if now.contains(f) {
                continue;
            }
            let b = std::fs::read(l).unwrap_or_default();
            let same = b.iter().zip(was).filter(|(a, b)| a == b && **b != 0).count();
            let total = was.iter().filter(|b| **b != 0).count();
            ensure!(total < 4 || same * 2 <= total, "file-not-wiped", "{what}: the file was removed with {same} of {} bytes of its contents", was.len());
        }
        Ok(())
    };
    let per = [1, 2, 1][c.kind as usize];
    let what = ["file container", "split over files", "split over RAM and file"][c.kind as usize];
    match c.end {
        0 => np("drop", move || drop(m))?,
        1 => {
            match &mut m {
                F::File(x) => np("zeroize", || x.zeroize())?,
                F::Nc(x) => np("zeroize", || x.zeroize())?,
            }
            left(&links, &format!("{what}, zeroized"), 0)?;
            np("drop", move || drop(m))?;
        }
        2 => {
            let b = Buffer::alloc(&fresh, fresh.len());
            let m2 = match m {
                F::File(x) => F::File(np("update", || x.update(b, fresh.len()))?.map_err(e)?),
                F::Nc(x) => F::Nc(np("update", || x.update(b, fresh.len()))?.map_err(e)?),
            };
            left(&links, &format!("{what}, updated"), per)?;
            ensure!(list().iter().all(|f| !links.contains_key(f)), "file-reused", "{what}: an update keeps the old file");
            link(&mut links)?;
            drop(m2);
        }
        3 => {
            for _ in 0..3 {
                match &m {
                    F::File(x) => drop(np("unlock", || x.unlock())?.map_err(e)?),
                    F::Nc(x) => np("refresh", || x.refresh())?.map_err(e)?,
                }
                left(&links, &format!("{what}, refreshed"), per)?;
                link(&mut links)?;
            }
            drop(m);
        }
        _ => {
            let r = vh::no_panic(AssertUnwindSafe(move || {
                let _m = m;
                panic!("on purpose");
            }));
            let _: Result<(), String> = r;
        }
    }
    left(&links, &format!("{what}, dropped"), 0)?;
    Ok(Out::new(true).tag(what))
}

// ---------------------------------------------------------------------------------------------
// borrows from several threads

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Thr {
    len: u32,
    ram: bool,
    threads: Vec<Vec<u8>>,
    rounds: u16,
    /// microseconds for which threads are stopped now and then
    jitter: u8,
}
fn thr(_: Tier) -> BoxedStrategy<Thr> {
    (sizes(), any::<bool>(), prop::collection::vec(prop::collection::vec(0u8..6, 1..5), 2..6), 1u16..200, prop_oneof![Just(0u8), 2u8..60]).prop_map(|(len, ram, threads, rounds, jitter)| Thr { len: len.max(1), ram, threads, rounds, jitter }).boxed()
}
fn run_thr(c: &Thr) -> vh::R<Out> {
    let end = vh::probe(|| {
        let p = bytes(c.len as usize, 9);
        let b = Buffer::alloc(&p, p.len());
        let at = b.borrow().as_ptr() as usize;
        let m = RamMemory::alloc(&p, p.len()).ok();
        let bar = Barrier::new(c.threads.len());
        let rs: Vec<Result<Result<(), String>, String>> = chk::jitter::jitter(c.jitter as u32, c.rounds as u64, |j| std::thread::scope(|s| {
            let hs: Vec<_> = c
                .threads
                .iter()
                .map(|t| {
                    let (b, m, bar, p) = (&b, &m, &bar, &p);
                    s.spawn(move || {
                        let _part = j.join();
                        vh::no_panic(AssertUnwindSafe(|| {
                            bar.wait();
                            for _ in 0..c.rounds {
                                for a in t {
                                    let ok = match (a, m) {
                                        (0, _) => b.borrow()[..] == p[..],
                                        (1, _) => {
                                            let g = b.borrow();
                                            let h = g.clone();
                                            drop(g);
                                            h[..] == p[..]
                                        }
                                        (2, _) => b.clone().borrow()[..] == p[..],
                                        (3, _) => b == b,
                                        (4, _) => {
                                            let g = b.borrow();
                                            std::thread::yield_now();
                                            g[p.len() - 1] == p[p.len() - 1]
                                        }
                                        (_, Some(m)) if c.ram => m.unlock().map(|v| v.borrow()[..] == p[..]).unwrap_or(false),
                                        _ => b.borrow()[0] == p[0],
                                    };
                                    if !ok {
                                        return Err(format!("action {a} sees other contents"));
                                    }
                                }
                            }
                            Ok(())
                        }))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Ok(Err("thread ended".into())))).collect()
        }));
        for r in rs {
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return e.into_bytes(),
                Err(e) => return format!("panic: {e}").into_bytes(),
            }
        }
        let pipe = Pipe::new();
        match check_rights(&pipe, at, &p, Right::Nothing, "after the borrows of all threads ended") {
            Ok(()) => vec![],
            Err(f) => f.msg.into_bytes(),
        }
    });
    match end {
        vh::ProbeEnd::Exit(b) if b.is_empty() => Ok(Out::new(true).tag(format!("{} threads", c.threads.len()))),
        vh::ProbeEnd::Exit(b) => fail!("threads", "{}", String::from_utf8_lossy(&b)),
        vh::ProbeEnd::Signal(s) => fail!("threads-crash", "{}", vh::signal_name(s)),
        vh::ProbeEnd::Panic(m) => fail!("threads-panic", "{m}"),
    }
}

fn main() {
    vh::main(vec![Property {
        id: "C15",
        level: "exploration",
        assumptions: &["up to 255 borrows of one buffer at a time: the next one is refused with a panic, which the existing tests pin",
            "reads just before the start of an unlocked buffer, within its first page, are not detected by design; writes there are, at release, for the bytes next to the start",
            "whether a page may be accessed is asked through system calls that report a bad address, and in the edge cases by really accessing it in a child process",
            "what memory holds when it is given back is seen by wrapping munmap and free; where a split container keeps its shares is found by searching new pages for two values that combine to the payload"],
        facets: vec![
            Facet { name: "rights", rule: "histories of nested, copied and mutable borrows of buffers of four element types, with the access rights of contents and surroundings checked after every step; non-trivial = at least two borrows at once", cases: (40000, 1500000), batch: 100, racy: false, strategy: bcase, run: run_rights }.boxed(),
            Facet { name: "edges", rule: "a read or write at an offset inside or around a buffer in one of its states, in a child process; non-trivial = the access was stopped", cases: (30000, 1000000), batch: 100, racy: false, strategy: edge, run: run_edge }.boxed(),
            Facet { name: "wipe", rule: "buffers, RAM and split containers and fragments dropped, zeroized, replaced or dropped while unwinding, with their memory looked at afterwards and when it is given back; non-trivial = the place of the contents is known", cases: (6000, 200000), batch: 20, racy: false, strategy: wipe, run: run_wipe }.boxed(),
            Facet { name: "files", rule: "file-backed containers dropped, zeroized, updated, refreshed or dropped while unwinding, with a second link to each file; non-trivial = files were found", cases: (20000, 500000), batch: 50, racy: false, strategy: file_case, run: run_files }.boxed(),
            Facet { name: "threads", rule: "several threads borrowing, copying and comparing one buffer; non-trivial = always", cases: (1500, 60000), batch: 10, racy: true, strategy: thr, run: run_thr }.boxed(),
        ],
        findings: vec![],
    }])
}

//! C22: the native interface, called as a C program would call it.
extern crate stronghold_native as _;

use chk::{bytes, engine::vault::ClientId, hex, refimpl, sh::*, view};
use std::{
    collections::{BTreeMap, BTreeSet},
    ffi::{c_char, c_void, CStr, CString},
};
use unicode_normalization::UnicodeNormalization;
use vh::{ensure, ensure_eq, fail, prelude::*, Facet, Failure, Out, Property};

extern "C" {
    fn stronghold_set_log_level(level: usize);
    fn stronghold_get_last_error() -> *const c_char;
    fn stronghold_destroy_error(s: *mut c_char);
    fn stronghold_create(path: *const c_char, key: *const c_char) -> *mut c_void;
    fn stronghold_load(path: *const c_char, key: *const c_char) -> *mut c_void;
    fn stronghold_destroy_stronghold(p: *mut c_void);
    fn stronghold_destroy_data_pointer(p: *mut u8);
    fn stronghold_generate_ed25519_keypair(p: *mut c_void, key: *const c_char, record: *const c_char) -> *mut u8;
    fn stronghold_write_vault(p: *mut c_void, key: *const c_char, record: *const c_char, data: *const u8, len: usize) -> bool;
    fn stronghold_generate_seed(p: *mut c_void, key: *const c_char) -> bool;
    fn stronghold_derive_seed(p: *mut c_void, key: *const c_char, index: u32) -> bool;
    fn stronghold_get_public_key(p: *mut c_void, record: *const c_char) -> *mut u8;
    fn stronghold_sign(p: *mut c_void, record: *const c_char, data: *const u8, len: usize) -> *mut u8;
}

const NF: u8 = 4;
/// A text that differs slightly from another one.
fn variant(s: &str, v: u8) -> String {
    match v % 12 {
        0 => s.into(),
        1 => format!(" {s}"),
        2 => format!("{s} "),
        3 => format!("{s}\n"),
        4 => s.to_uppercase(),
        5 => s.to_lowercase(),
        6 => s.nfd().collect(),
        7 => s.nfkc().collect(),
        8 => format!("{s}x"),
        9 => s.chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect(),
        10 => s.replace(' ', ""),
        _ => format!("{s}/../{s}"),
    }
}
fn key_text(k: u8) -> String {
    let s = match k % 5 {
        0 => "key".into(),
        1 => "Key".into(),
        2 => "".into(),
        3 => "pässwörd with blanks \u{212b}".into(),
        _ => "k".repeat(300),
    };
    variant(&s, k / 5)
}
fn record(r: u8) -> String {
    let s = match r % 8 {
        0 => "key".into(),
        1 => "seed".into(),
        2 => "seed.0".into(),
        3 => "seed.1".into(),
        4 => "".into(),
        5 => "schlüssel".into(),
        6 => "r".repeat(400),
        _ => format!("seed.{}", u32::MAX),
    };
    variant(&s, r / 8)
}
fn index(i: u8) -> u32 {
    match i % 16 {
        0 => 0,
        1 => 1,
        2 => u32::MAX,
        3 => 1 << 31,
        4 => (1 << 31) - 1,
        5 => 1 << 16,
        6 => 1 << 8,
        7 => (1 << 31) + 1,
        8 => 1 << 24,
        9 => u16::MAX as u32,
        10 => u8::MAX as u32,
        _ => (i as u32).wrapping_mul(0x9E37_79B1),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Create { f: u8, k: u8 },
    Load { f: u8, k: u8 },
    Destroy { h: u8 },
    Gen { h: u8, k: u8, r: u8 },
    Write { h: u8, k: u8, r: u8, len: u16, seed: u8 },
    Seed { h: u8, k: u8 },
    Derive { h: u8, k: u8, i: u8 },
    Pub { h: u8, r: u8 },
    Sign { h: u8, r: u8, len: u16, seed: u8 },
    /// The file is removed, cut, has a byte changed, or a directory lies in its place
    Damage { f: u8, how: u8, at: u16 },
    /// Null pointers given back
    Nulls,
    Log { level: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ops: Vec<Op>,
}
fn case(_: Tier) -> BoxedStrategy<Case> {
    let h = || 0u8..4;
    let k = || prop_oneof![12 => Just(0u8), 3 => 0u8..5, 1 => 0u8..60];
    let f = || prop_oneof![6 => 0u8..2, 1 => 0u8..NF];
    let r = || prop_oneof![6 => 0u8..4, 4 => 0u8..8, 1 => 0u8..96];
    let op = prop_oneof![
        2 => (f(), k()).prop_map(|(f, k)| Op::Create { f, k }),
        4 => (f(), k()).prop_map(|(f, k)| Op::Load { f, k }),
        1 => h().prop_map(|h| Op::Destroy { h }),
        4 => (h(), k(), r()).prop_map(|(h, k, r)| Op::Gen { h, k, r }),
        4 => (h(), k(), r(), prop_oneof![3 => Just(32u16), 1 => Just(64u16), 2 => 0u16..70, 1 => 0u16..3000, 1 => any::<u16>()], any::<u8>()).prop_map(|(h, k, r, len, seed)| Op::Write { h, k, r, len, seed }),
        3 => (h(), k()).prop_map(|(h, k)| Op::Seed { h, k }),
        4 => (h(), k(), prop_oneof![2 => 0u8..5, 1 => any::<u8>()]).prop_map(|(h, k, i)| Op::Derive { h, k, i }),
        6 => (h(), r()).prop_map(|(h, r)| Op::Pub { h, r }),
        6 => (h(), r(), prop_oneof![4 => 0u16..100, 1 => 0u16..5000, 1 => any::<u16>()], any::<u8>()).prop_map(|(h, r, len, seed)| Op::Sign { h, r, len, seed }),
        1 => (f(), 0u8..4, any::<u16>()).prop_map(|(f, how, at)| Op::Damage { f, how, at }),
        1 => Just(Op::Nulls),
        1 => (0u8..8).prop_map(|level| Op::Log { level }),
    ];
    (prop::collection::vec(op, 1..30), k(), f())
        .prop_map(|(mut ops, k, f)| {
            ops.insert(0, Op::Create { f, k });
            Case { ops }
        })
        .boxed()
}

/// What a record holds; the value of a generated one is learned from the next written file.
#[derive(Clone, Debug, PartialEq)]
enum Val {
    Known(Vec<u8>),
    Random(u64, usize),
}
struct Handle {
    ptr: *mut c_void,
    f: u8,
    recs: BTreeMap<String, Val>,
}
impl Drop for Handle {
    fn drop(&mut self) {
        unsafe { stronghold_destroy_stronghold(self.ptr) }
    }
}
struct World {
    dir: vh::TempDir,
    handles: Vec<Handle>,
    /// key and records of each file; none: absent or damaged
    files: BTreeMap<u8, (String, BTreeMap<String, Val>)>,
    learned: BTreeMap<u64, Vec<u8>>,
    blocked: BTreeSet<u8>,
    next: u64,
    committed: usize,
    refused: usize,
    signed: usize,
}
fn c(s: &str) -> CString {
    CString::new(s).unwrap()
}
/// The error of the last call; asking again yields nothing.
fn last_error() -> Option<String> {
    unsafe {
        let p = stronghold_get_last_error();
        if p.is_null() {
            return None;
        }
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        stronghold_destroy_error(p as *mut c_char);
        Some(s)
    }
}
fn result(what: &str, ok: bool, expect: Result<(), &str>) -> vh::R<()> {
    let e = last_error();
    match (ok, expect, &e) {
        (true, Ok(()), None) => Ok(()),
        (false, Err(p), Some(t)) if t.starts_with(p) => {
            ensure_eq!(last_error(), None, "error-string", "{what}: the error asked for again");
            Ok(())
        }
        (ok, expect, e) => fail!("result", "{what}: succeeded: {ok}, error {e:?}, expected {expect:?}"),
    }
}
impl World {
    fn path(&self, f: u8) -> String {
        let d = self.dir.path().to_str().unwrap();
        match f {
            0 => format!("{d}/a.stronghold"),
            1 => format!("{d}/zwei ö"),
            2 => format!("{d}/sub/c.stronghold"),
            _ => format!("{d}/file/x"),
        }
    }
    fn writable(f: u8) -> bool {
        f % NF != 3
    }
    fn can_write(&self, f: u8) -> bool {
        Self::writable(f) && !self.blocked.contains(&f)
    }
    fn resolve(&mut self, v: &Val) -> Option<Vec<u8>> {
        match v {
            Val::Known(b) => Some(b.clone()),
            Val::Random(n, _) => self.learned.get(n).cloned(),
        }
    }
    /// After a write the file holds exactly the records of the handle.
    fn committed(&mut self, hi: usize, k: &str, what: &str) -> vh::R<()> {
        let (f, recs) = (self.handles[hi].f, self.handles[hi].recs.clone());
        self.committed += 1;
        let raw: [u8; 32] = refimpl::blake2b(32, k.as_bytes()).try_into().unwrap();
        let cid = ClientId::load_from_path(b"wasp", b"wasp");
        let st = Snapshot::read_from_snapshot(&SnapshotPath::from_path(self.path(f)), raw, None)
            .and_then(|s| s.get_state(cid))
            .map_err(|e| Failure::new("file", format!("{what}: the file written cannot be read with the key given: {e}")))?;
        let got = view::records(&st, what)?;
        let ids: BTreeMap<_, _> = recs.keys().map(|r| (Location::generic("wasp", r.as_str()).resolve(), r.clone())).collect();
        for (id, v) in &got {
            let Some(r) = ids.get(id) else { fail!("records", "{what}: the file holds a record nobody made") };
            match recs[r].clone() {
                Val::Known(w) => ensure!(*v == w, "records", "{what}: record {r:?} holds {}, expected {}", hex(v), hex(&w)),
                Val::Random(n, len) => match self.learned.get(&n) {
                    Some(w) => ensure!(v == w, "records", "{what}: the random record {r:?} changed from {} to {}", hex(w), hex(v)),
                    None => {
                        ensure_eq!(v.len(), len, "records", "{what}: size of the generated record {r:?}");
                        ensure!(!self.learned.values().any(|w| w == v), "random", "{what}: a generated value repeats an earlier one");
                        self.learned.insert(n, v.clone());
                    }
                },
            }
        }
        ensure_eq!(got.len(), recs.len(), "records", "{what}: records in the file");
        self.files.insert(f, (k.to_string(), recs));
        Ok(())
    }
    /// A call that changes a handle's client and writes its file
    fn write(&mut self, hi: usize, k: &str, what: &str, ok: bool, change: Result<Option<(String, Val)>, ()>) -> vh::R<()> {
        match change {
            Err(()) => {
                self.refused += 1;
                result(what, ok, Err("Failed to execute procedure"))
            }
            Ok(ch) => {
                if let Some((r, v)) = ch {
                    self.handles[hi].recs.insert(r, v);
                }
                if self.can_write(self.handles[hi].f) {
                    result(what, ok, Ok(()))?;
                    self.committed(hi, k, what)
                } else {
                    self.refused += 1;
                    result(what, ok, Err("Failed to commit to snapshot"))
                }
            }
        }
    }
    fn random(&mut self, len: usize) -> Val {
        self.next += 1;
        Val::Random(self.next, len)
    }
    fn op(&mut self, o: &Op) -> vh::R<()> {
        let pick = |w: &World, h: u8| if w.handles.is_empty() { None } else { Some(h as usize % w.handles.len()) };
        match o {
            Op::Create { f, k } => {
                let (f, k) = (f % NF, key_text(*k));
                let p = unsafe { stronghold_create(c(&self.path(f)).as_ptr(), c(&k).as_ptr()) };
                if self.can_write(f) {
                    result("create", !p.is_null(), Ok(()))?;
                    self.handles.push(Handle { ptr: p, f, recs: BTreeMap::new() });
                    let hi = self.handles.len() - 1;
                    self.committed(hi, &k, "create")?;
                    if self.handles.len() > 3 {
                        self.handles.remove(0);
                    }
                } else {
                    self.refused += 1;
                    result("create in a place that is not there", !p.is_null(), Err("Failed to commit to snapshot"))?;
                }
            }
            Op::Load { f, k } => {
                let (f, k) = (f % NF, key_text(*k));
                let p = unsafe { stronghold_load(c(&self.path(f)).as_ptr(), c(&k).as_ptr()) };
                match self.files.get(&f).filter(|x| x.0 == k) {
                    Some((_, recs)) => {
                        let recs = recs.clone();
                        result("load", !p.is_null(), Ok(()))?;
                        self.handles.push(Handle { ptr: p, f, recs });
                        if self.handles.len() > 3 {
                            self.handles.remove(0);
                        }
                    }
                    None => {
                        self.refused += 1;
                        result("load of an absent or damaged file or with another key", !p.is_null(), Err("Failed to open snapshot"))?;
                    }
                }
            }
            Op::Destroy { h } => {
                if let Some(hi) = pick(self, *h) {
                    drop(self.handles.remove(hi));
                    ensure_eq!(last_error(), None, "result", "destroy");
                }
            }
            Op::Gen { h, k, r } => {
                let Some(hi) = pick(self, *h) else { return Ok(()) };
                let (k, r) = (key_text(*k), record(*r));
                let p = unsafe { stronghold_generate_ed25519_keypair(self.handles[hi].ptr, c(&k).as_ptr(), c(&r).as_ptr()) };
                let v = self.random(32);
                let res = self.write(hi, &k, "generate key", !p.is_null(), Ok(Some((r, v))));
                unsafe { stronghold_destroy_data_pointer(p) };
                res?;
            }
            Op::Write { h, k, r, len, seed } => {
                let Some(hi) = pick(self, *h) else { return Ok(()) };
                let (k, r, d) = (key_text(*k), record(*r), bytes(*len as usize, *seed as u64));
                let ok = unsafe { stronghold_write_vault(self.handles[hi].ptr, c(&k).as_ptr(), c(&r).as_ptr(), d.as_ptr(), d.len()) };
                self.write(hi, &k, "write", ok, Ok(Some((r, Val::Known(d)))))?;
            }
            Op::Seed { h, k } => {
                let Some(hi) = pick(self, *h) else { return Ok(()) };
                let k = key_text(*k);
                let ok = unsafe { stronghold_generate_seed(self.handles[hi].ptr, c(&k).as_ptr()) };
                let v = self.random(32);
                self.write(hi, &k, "generate seed", ok, Ok(Some(("seed".into(), v))))?;
            }
            Op::Derive { h, k, i } => {
                let Some(hi) = pick(self, *h) else { return Ok(()) };
                let (k, i) = (key_text(*k), index(*i));
                let seed = self.handles[hi].recs.get("seed").cloned();
                let ok = unsafe { stronghold_derive_seed(self.handles[hi].ptr, c(&k).as_ptr(), i) };
                let change = match seed {
                    None => Err(()),
                    Some(s) => {
                        let v = match self.resolve(&s) {
                            Some(s) => {
                                let chain: Vec<u32> = [44, 4218, 0, 0, i].iter().map(|x| x | 1 << 31).collect();
                                Val::Known(refimpl::slip10_child(&refimpl::slip10_master(&s), &chain).unwrap())
                            }
                            // the seed was never written to a file, so its value is not known
                            None => self.random(64),
                        };
                        Ok(Some((format!("seed.{i}"), v)))
                    }
                };
                self.write(hi, &k, &format!("derive {i}"), ok, change)?;
            }
            Op::Pub { h, r } => {
                let Some(hi) = pick(self, *h) else { return Ok(()) };
                let r = record(*r);
                let p = unsafe { stronghold_get_public_key(self.handles[hi].ptr, c(&r).as_ptr()) };
                let v = self.handles[hi].recs.get(&r).cloned();
                match v.map(|v| self.resolve(&v)) {
                    None => {
                        self.refused += 1;
                        result("public key of an absent record", !p.is_null(), Err("Failed to execute procedure"))?;
                    }
                    Some(Some(s)) if s.len() < 32 => {
                        self.refused += 1;
                        result("public key of a short record", !p.is_null(), Err("Failed to execute procedure"))?;
                    }
                    Some(s) => {
                        result("public key", !p.is_null(), Ok(()))?;
                        let got = unsafe { std::slice::from_raw_parts(p, 32) }.to_vec();
                        if let Some(s) = s {
                            let want = refimpl::ed25519_pk(&s);
                            ensure!(got == want, "public-key", "the public key of {r:?} is {}, expected {}", hex(&got), hex(&want));
                        }
                        self.signed += 1;
                    }
                }
                unsafe { stronghold_destroy_data_pointer(p) };
            }
            Op::Sign { h, r, len, seed } => {
                let Some(hi) = pick(self, *h) else { return Ok(()) };
                let (r, m) = (record(*r), bytes(*len as usize, 50 + *seed as u64));
                let p = unsafe { stronghold_sign(self.handles[hi].ptr, c(&r).as_ptr(), m.as_ptr(), m.len()) };
                let v = self.handles[hi].recs.get(&r).cloned();
                match v.map(|v| self.resolve(&v)) {
                    None => {
                        self.refused += 1;
                        result("signature with an absent record", !p.is_null(), Err("Failed to execute procedure"))?;
                    }
                    Some(Some(s)) if s.len() < 32 => {
                        self.refused += 1;
                        result("signature with a short record", !p.is_null(), Err("Failed to execute procedure"))?;
                    }
                    Some(s) => {
                        result("sign", !p.is_null(), Ok(()))?;
                        let got = unsafe { std::slice::from_raw_parts(p, 64) }.to_vec();
                        if let Some(s) = s {
                            let want = refimpl::ed25519_sign(&s, &m);
                            ensure!(got == want, "signature", "the signature of {} bytes with {r:?} is {}, expected {}", m.len(), hex(&got), hex(&want));
                        }
                        self.signed += 1;
                    }
                }
                unsafe { stronghold_destroy_data_pointer(p) };
            }
            Op::Damage { f, how, at } => {
                let f = f % NF;
                let p = self.path(f);
                if how % 4 == 3 {
                    if self.blocked.remove(&f) {
                        std::fs::remove_dir_all(&p).unwrap();
                    } else if Self::writable(f) {
                        let _ = std::fs::remove_file(&p);
                        std::fs::create_dir_all(format!("{p}/x")).unwrap();
                        self.files.remove(&f);
                        self.blocked.insert(f);
                    }
                } else if let Ok(mut b) = std::fs::read(&p) {
                    match how % 4 {
                        0 => std::fs::remove_file(&p).unwrap(),
                        1 => std::fs::write(&p, &b[..*at as usize % b.len()]).unwrap(),
                        _ => {
                            let n = *at as usize % b.len();
                            b[n] ^= 1 << (at % 8);
                            std::fs::write(&p, b).unwrap();
                        }
                    }
                    self.files.remove(&f);
                }
            }
            Op::Nulls => {
                unsafe {
                    stronghold_destroy_error(std::ptr::null_mut());
                    stronghold_destroy_data_pointer(std::ptr::null_mut());
                    stronghold_destroy_stronghold(std::ptr::null_mut());
                }
                ensure_eq!(last_error(), None, "error-string", "after null pointers were given back");
            }
            Op::Log { level } => unsafe { stronghold_set_log_level(if *level < 6 { 0 } else { 6 + *level as usize }) },
        }
        Ok(())
    }
}
fn run(cs: &Case) -> vh::R<Out> {
    let dir = vh::TempDir::new();
    std::fs::write(dir.path().join("file"), b"not a directory").unwrap();
    std::fs::create_dir(dir.path().join("sub")).unwrap();
    let mut w = World { dir, handles: vec![], files: BTreeMap::new(), learned: BTreeMap::new(), blocked: BTreeSet::new(), next: 0, committed: 0, refused: 0, signed: 0 };
    last_error();
    for o in &cs.ops {
        w.op(o)?;
    }
    // everything written can be opened again
    for (f, (k, recs)) in w.files.clone() {
        w.op(&Op::Load { f, k: (0..60).find(|i| key_text(*i) == k).unwrap() })?;
        let names: BTreeSet<String> = recs.keys().cloned().collect();
        for r in 0..8 {
            if names.contains(&record(r)) {
                w.op(&Op::Pub { h: w.handles.len() as u8 - 1, r })?;
            }
        }
    }
    Ok(Out::new(w.committed > 2 && w.signed > 0).tag_if(w.refused > 0, "refused").tag_if(w.signed > 0, "keys used"))
}

fn main() {
    if let Err(e) = refimpl::selftest() {
        eprintln!("{e}");
        std::process::exit(2);
    }
    vh::main(vec![Property {
        id: "C22",
        level: "exploration",
        assumptions: &["strings are valid UTF-8 and end in a zero byte, handles are live, and data pointers are valid, as the unsafe interface demands; null is given only to the functions that release objects",
            "public keys are read as 32 bytes and signatures as 64 bytes behind the returned pointers",
            "of a generated value that was never written to a file only the success of its uses is judged"],
        facets: vec![Facet { name: "calls", rule: "sequences of C calls on up to three handles and four files with right and wrong keys, damaged files and missing records; files read back and public keys and signatures computed independently; non-trivial = at least three files written and a key used", cases: (6000, 250000), batch: 20, racy: false, strategy: case, run }.boxed()],
        findings: vec![],
    }])
}

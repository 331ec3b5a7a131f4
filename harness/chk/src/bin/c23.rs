//! C23: clients, stores and the instance used from many threads at once.
use chk::{
    engine::vault::ClientId,
    jitter::jitter,
    refimpl::H,
    reg::{client_path, provider},
    sh::{procedures::*, *},
    *,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    hash::{Hash, Hasher},
    panic::AssertUnwindSafe,
    path::PathBuf,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Barrier, Mutex,
    },
};
use vh::{ensure, ensure_eq, fail, prelude::*, Facet, Failure, Out, Property};

const NC: u8 = 2;

// ---------------------------------------------------------------- values
type V = [u8; 32];
fn value(t: usize, i: usize, n: usize) -> V {
    bytes(32, 1_000_000 * t as u64 + 1000 * n as u64 + i as u64).try_into().unwrap()
}
fn stepped(v: &V) -> V {
    H::S256.hkdf(b"salt", v, b"next").try_into().unwrap()
}
fn mac(v: &[u8]) -> Vec<u8> {
    H::S256.hmac(v, b"who")
}
fn do_write(c: &Client, l: Loc, v: &V, p: bool) -> Result<(), String> {
    if p {
        c.execute_procedure(WriteVault { data: v.to_vec(), location: l.get() }).map_err(|e| e.to_string())
    } else {
        c.vault(vault_path(l.v)).write_secret(l.get(), v.to_vec()).map_err(|e| e.to_string())
    }
}
fn do_step(c: &Client, l: Loc) -> Result<(), String> {
    c.execute_procedure(Hkdf { hash_type: Sha2Hash::Sha256, salt: b"salt".to_vec(), label: b"next".to_vec(), ikm: l.get(), okm: l.get() }).map_err(|e| e.to_string())
}
fn do_read(c: &Client, l: Loc) -> Result<Vec<u8>, String> {
    c.execute_procedure(Hmac { hash_type: Sha2Hash::Sha256, msg: b"who".to_vec(), key: l.get() }).map_err(|e| e.to_string())
}
fn skey(k: u8) -> Vec<u8> {
    vec![b'k', k]
}
fn sval(v: &[u8]) -> Vec<u8> {
    v.to_vec()
}

// ---------------------------------------------------------------- small programs, explained by a sequential order
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum On {
    Write { l: Loc, p: bool },
    Step { l: Loc },
    Copy { v: u8, a: u8, b: u8 },
    Read { l: Loc },
    Exists { l: Loc },
    VaultExists { v: u8 },
    Revoke { l: Loc, p: bool },
    Delete { l: Loc, p: bool },
    Collect { v: u8 },
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum St {
    Put { k: u8 },
    Get { k: u8 },
    Del { k: u8 },
    Has { k: u8 },
    Keys,
    Clear,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    On { c: u8, on: On },
    /// a client's store, or the instance's (c = 2)
    Store { c: u8, s: St },
    Create { c: u8 },
    Get { c: u8 },
    LoadMem { c: u8 },
    Unload { c: u8 },
    Purge { c: u8 },
    WriteClient { c: u8 },
    Commit { f: u8, k: u8 },
    StoreKey { k: u8 },
    CommitStored { f: u8 },
    LoadFile { c: u8, f: u8, k: u8 },
    LoadSnap { f: u8, k: u8 },
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Small {
    before: Vec<Op>,
    threads: Vec<Vec<Op>>,
    jitter: u8,
    runs: u8,
}
fn sloc() -> BoxedStrategy<Loc> {
    loc(2, 2)
}
fn on() -> BoxedStrategy<On> {
    prop_oneof![
        5 => (sloc(), any::<bool>()).prop_map(|(l, p)| On::Write { l, p }),
        5 => sloc().prop_map(|l| On::Step { l }),
        2 => (0u8..2, 0u8..2, 0u8..2).prop_map(|(v, a, b)| On::Copy { v, a, b }),
        4 => sloc().prop_map(|l| On::Read { l }),
        2 => sloc().prop_map(|l| On::Exists { l }),
        1 => (0u8..2).prop_map(|v| On::VaultExists { v }),
        2 => (sloc(), any::<bool>()).prop_map(|(l, p)| On::Revoke { l, p }),
        2 => (sloc(), any::<bool>()).prop_map(|(l, p)| On::Delete { l, p }),
        1 => (0u8..2).prop_map(|v| On::Collect { v }),
    ]
    .boxed()
}
fn st() -> BoxedStrategy<St> {
    let k = || 0u8..2;
    prop_oneof![
        4 => k().prop_map(|k| St::Put { k }),
        3 => k().prop_map(|k| St::Get { k }),
        3 => k().prop_map(|k| St::Del { k }),
        1 => k().prop_map(|k| St::Has { k }),
        1 => Just(St::Keys),
        1 => Just(St::Clear),
    ]
    .boxed()
}
/// `reg`: how often the registry, the snapshot and the files are used
fn op(reg: u32) -> BoxedStrategy<Op> {
    let c = || prop_oneof![3 => Just(0u8), 1 => 0..NC];
    let (f, k) = (|| 0u8..2, || prop_oneof![7 => Just(0u8), 1 => Just(1u8)]);
    prop_oneof![
        20 => (c(), on()).prop_map(|(c, on)| Op::On { c, on }),
        10 => (prop_oneof![3 => c(), 2 => Just(2u8)], st()).prop_map(|(c, s)| Op::Store { c, s }),
        reg => c().prop_map(|c| Op::Create { c }),
        reg => c().prop_map(|c| Op::Get { c }),
        2 * reg => c().prop_map(|c| Op::LoadMem { c }),
        2 * reg => c().prop_map(|c| Op::Unload { c }),
        reg => c().prop_map(|c| Op::Purge { c }),
        2 * reg => c().prop_map(|c| Op::WriteClient { c }),
        2 * reg => (f(), k()).prop_map(|(f, k)| Op::Commit { f, k }),
        reg => k().prop_map(|k| Op::StoreKey { k }),
        reg => f().prop_map(|f| Op::CommitStored { f }),
        2 * reg => (c(), f(), k()).prop_map(|(c, f, k)| Op::LoadFile { c, f, k }),
        reg => (f(), k()).prop_map(|(f, k)| Op::LoadSnap { f, k }),
        reg => Just(Op::Clear),
    ]
    .boxed()
}
fn small(t: Tier) -> BoxedStrategy<Small> {
    let runs = if t == Tier::Quick { 12 } else { 40 };
    (prop_oneof![Just(0u32), Just(1), Just(8)])
        .prop_flat_map(move |reg| {
            let reg = reg.max(1);
            (
                prop::collection::vec(op(reg), 0..8),
                prop::collection::vec(prop::collection::vec(op(reg), 1..5), 2..4),
                prop_oneof![1 => Just(0u8), 4 => 3u8..60],
            )
        })
        .prop_map(move |(before, threads, jitter)| Small { before, threads, jitter, runs })
        .boxed()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Res {
    Ok,
    /// what could not be done
    Err(&'static str),
    Bool(bool),
    Bytes(Option<Vec<u8>>),
    Keys(BTreeSet<Vec<u8>>),
}
#[derive(Clone, Debug)]
struct Ev {
    op: Op,
    val: V,
    inv: u64,
    ret: u64,
    res: Res,
}
fn kind(e: &ClientError) -> &'static str {
    match e {
        ClientError::ClientDataNotPresent => "absent",
        ClientError::ClientAlreadyLoaded(_) => "already loaded",
        ClientError::SnapshotFileMissing(_) => "no file",
        ClientError::SnapshotKeyLocationMissing => "no key",
        ClientError::LockAcquireFailed => "lock",
        _ => "other",
    }
}
struct Real {
    hold: Stronghold,
    dir: vh::TempDir,
}
impl Real {
    fn path(&self, f: u8) -> PathBuf {
        self.dir.path().join(format!("f{f}"))
    }
    fn exec(&self, mine: &mut [Client], op: &Op, val: &V) -> Res {
        let unit = |r: Result<(), String>| if r.is_ok() { Res::Ok } else { Res::Err("secret") };
        let reg = |r: Result<(), ClientError>| match r {
            Ok(()) => Res::Ok,
            Err(e) => Res::Err(kind(&e)),
        };
        match op {
            Op::On { c, on } => {
                let cl = &mine[*c as usize];
                match on {
                    On::Write { l, p } => unit(do_write(cl, *l, val, *p)),
                    On::Step { l } => unit(do_step(cl, *l)),
                    On::Copy { v, a, b } => unit(cl.execute_procedure(CopyRecord { source: Loc { v: *v, r: *a }.get(), target: Loc { v: *v, r: *b }.get() }).map_err(|e| e.to_string())),
                    On::Read { l } => do_read(cl, *l).map_or(Res::Err("secret"), |m| Res::Bytes(Some(m))),
                    On::Exists { l } => cl.record_exists(&l.get()).map_or(Res::Err("exists"), Res::Bool),
                    On::VaultExists { v } => cl.vault_exists(vault_path(*v)).map_or(Res::Err("exists"), Res::Bool),
                    On::Revoke { l, p } => unit(if *p {
                        cl.execute_procedure(RevokeData { location: l.get(), should_gc: false }).map_err(|e| e.to_string())
                    } else {
                        cl.vault(vault_path(l.v)).revoke_secret(l.record_path().unwrap()).map_err(|e| e.to_string())
                    }),
                    On::Delete { l, p: true } => unit(cl.execute_procedure(RevokeData { location: l.get(), should_gc: true }).map_err(|e| e.to_string())),
                    On::Delete { l, p: false } => cl.vault(vault_path(l.v)).delete_secret(l.record_path().unwrap()).map_or(Res::Err("delete"), Res::Bool),
                    On::Collect { v } => cl.vault(vault_path(*v)).cleanup().map_or(Res::Err("collect"), Res::Bool),
                }
            }
            Op::Store { c, s } => {
                let store = if *c == 2 { self.hold.store() } else { mine[*c as usize].store() };
                let get = |r: Result<Option<Vec<u8>>, ClientError>| r.map_or(Res::Err("store"), Res::Bytes);
                match s {
                    St::Put { k } => get(store.insert(skey(*k), sval(val), None)),
                    St::Get { k } => get(store.get(&skey(*k))),
                    St::Del { k } => get(store.delete(&skey(*k))),
                    St::Has { k } => store.contains_key(&skey(*k)).map_or(Res::Err("store"), Res::Bool),
                    St::Keys => store.keys().map_or(Res::Err("store"), |k| Res::Keys(k.into_iter().collect())),
                    St::Clear => store.clear().map_or(Res::Err("store"), |_| Res::Ok),
                }
            }
            Op::Create { c } => match self.hold.create_client(client_path(*c)) {
                Ok(n) => {
                    mine[*c as usize] = n;
                    Res::Ok
                }
                Err(e) => Res::Err(kind(&e)),
            },
            Op::Get { c } => self.taken(mine, *c, self.hold.get_client(client_path(*c))),
            Op::LoadMem { c } => self.taken(mine, *c, self.hold.load_client(client_path(*c))),
            Op::LoadFile { c, f, k } => self.taken(mine, *c, self.hold.load_client_from_snapshot(client_path(*c), &provider(*k), &SnapshotPath::from_path(self.path(*f)))),
            Op::Unload { c } => reg(self.hold.unload_client(mine[*c as usize].clone()).map(|_| ())),
            Op::Purge { c } => reg(self.hold.purge_client(mine[*c as usize].clone())),
            Op::WriteClient { c } => reg(self.hold.write_client(client_path(*c))),
            Op::Commit { f, k } => reg(self.hold.commit_with_keyprovider(&SnapshotPath::from_path(self.path(*f)), &provider(*k))),
            Op::StoreKey { k } => reg(self.hold.store_snapshot_key_at_location(provider(*k), Location::generic("keyvault", "key"))),
            Op::CommitStored { f } => reg(self.hold.commit(&SnapshotPath::from_path(self.path(*f)))),
            Op::LoadSnap { f, k } => reg(self.hold.load_snapshot(&provider(*k), &SnapshotPath::from_path(self.path(*f)))),
            Op::Clear => reg(self.hold.clear()),
        }
    }
    fn taken(&self, mine: &mut [Client], c: u8, r: Result<Client, ClientError>) -> Res {
        match r {
            Ok(n) => {
                mine[c as usize] = n;
                Res::Ok
            }
            Err(e) => Res::Err(kind(&e)),
        }
    }
}

/// Contents of a client: a record that was revoked and not collected holds nothing.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Cl {
    vaults: BTreeSet<u8>,
    recs: BTreeMap<Loc, Option<V>>,
    store: BTreeMap<u8, V>,
}
impl Cl {
    fn live(&self) -> BTreeMap<Loc, V> {
        self.recs.iter().filter_map(|(l, v)| v.map(|v| (*l, v))).collect()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Prog {
    /// copies still to be made; copies made
    Commit { todo: Vec<(u8, usize)>, got: BTreeMap<u8, Rc<Cl>> },
    Clear { todo: Vec<usize>, inst: bool },
    Collect,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M {
    objs: Vec<Rc<Cl>>,
    /// the object behind each thread's handle of each client
    mine: Vec<[usize; NC as usize]>,
    reg: [Option<usize>; NC as usize],
    snap: BTreeMap<u8, Rc<Cl>>,
    files: [Option<(u8, BTreeMap<u8, Rc<Cl>>)>; 2],
    inst: BTreeMap<u8, V>,
    /// stored key, and whether the snapshot it was in is still there
    key: Option<(u8, bool)>,
    prog: Vec<Option<Prog>>,
    done: Vec<usize>,
}
impl M {
    fn start(threads: usize) -> M {
        let none = Rc::new(Cl::default());
        M {
            objs: vec![none.clone(), none],
            mine: vec![[0, 1]; threads],
            reg: [Some(0), Some(1)],
            snap: BTreeMap::new(),
            files: [None, None],
            inst: BTreeMap::new(),
            key: None,
            prog: vec![None; threads],
            done: vec![0; threads],
        }
    }
    fn add(&mut self, t: usize, c: u8, cl: Rc<Cl>) {
        self.objs.push(cl);
        self.mine[t][c as usize] = self.objs.len() - 1;
        self.reg[c as usize] = Some(self.objs.len() - 1);
    }
    /// The states after the next part of this thread's call.
    fn next(&self, t: usize, e: &Ev) -> Vec<M> {
        let mut out = vec![];
        let one = |f: &mut dyn FnMut(&mut M) -> bool, out: &mut Vec<M>, fin: bool| {
            let mut m = self.clone();
            if f(&mut m) {
                if fin {
                    m.done[t] += 1;
                    m.prog[t] = None;
                }
                out.push(m);
            }
        };
        match (&self.prog[t], &e.op) {
            (Some(Prog::Commit { todo, got }), _) => {
                for i in 0..todo.len() {
                    one(
                        &mut |m| {
                            let (mut todo, mut got) = (todo.clone(), got.clone());
                            let (c, o) = todo.remove(i);
                            got.insert(c, m.objs[o].clone());
                            m.prog[t] = Some(Prog::Commit { todo, got });
                            true
                        },
                        &mut out,
                        false,
                    );
                }
                if todo.is_empty() {
                    one(
                        &mut |m| {
                            m.snap.extend(got.iter().map(|(c, x)| (*c, x.clone())));
                            let (f, k) = match e.op {
                                Op::Commit { f, k } => (f, Ok(k)),
                                Op::CommitStored { f } => (f, match m.key {
                                    Some((k, true)) => Ok(k),
                                    // the key went with the replaced in-memory snapshot
                                    Some((k, false)) if e.res == Res::Ok => Ok(k),
                                    Some((_, false)) => Err("other"),
                                    None => Err("no key"),
                                }),
                                _ => unreachable!(),
                            };
                            match (k, &e.res) {
                                (Ok(k), Res::Ok) => {
                                    m.files[f as usize] = Some((k, m.snap.clone()));
                                    true
                                }
                                (Err(x), Res::Err(y)) => x == *y,
                                _ => false,
                            }
                        },
                        &mut out,
                        true,
                    );
                }
            }
            (Some(Prog::Clear { todo, inst }), _) => {
                if !todo.is_empty() || *inst {
                    for i in 0..todo.len() {
                        one(
                            &mut |m| {
                                let mut todo = todo.clone();
                                let o = todo.remove(i);
                                m.objs[o] = Rc::new(Cl::default());
                                m.prog[t] = Some(Prog::Clear { todo, inst: *inst });
                                true
                            },
                            &mut out,
                            false,
                        );
                    }
                    if *inst {
                        one(
                            &mut |m| {
                                m.inst.clear();
                                m.prog[t] = Some(Prog::Clear { todo: todo.clone(), inst: false });
                                true
                            },
                            &mut out,
                            false,
                        );
                    }
                } else {
                    one(&mut |_| e.res == Res::Ok, &mut out, true);
                }
            }
            (Some(Prog::Collect), Op::On { c, on: On::Delete { l, p } }) => one(
                &mut |m| {
                    let o = m.mine[t][*c as usize];
                    let x = Rc::make_mut(&mut m.objs[o]);
                    x.recs.retain(|k, v| k.v != l.v || v.is_some());
                    e.res == if *p { Res::Ok } else { Res::Bool(x.vaults.contains(&l.v)) }
                },
                &mut out,
                true,
            ),
            (_, Op::Commit { .. } | Op::CommitStored { .. }) => one(
                &mut |m| {
                    let todo = (0..NC).filter_map(|c| m.reg[c as usize].map(|o| (c, o))).collect();
                    m.prog[t] = Some(Prog::Commit { todo, got: BTreeMap::new() });
                    true
                },
                &mut out,
                false,
            ),
            (_, Op::Clear) => one(
                &mut |m| {
                    let todo = m.reg.iter().flatten().copied().collect();
                    m.reg = [None, None];
                    m.snap.clear();
                    m.key = None;
                    m.prog[t] = Some(Prog::Clear { todo, inst: true });
                    true
                },
                &mut out,
                false,
            ),
            (_, Op::On { c, on: On::Delete { l, .. } }) => one(
                &mut |m| {
                    let o = m.mine[t][*c as usize];
                    if let Some(v) = Rc::make_mut(&mut m.objs[o]).recs.get_mut(l) {
                        *v = None;
                    }
                    m.prog[t] = Some(Prog::Collect);
                    true
                },
                &mut out,
                false,
            ),
            _ => one(&mut |m| m.whole(t, e), &mut out, true),
        }
        out
    }
    /// A call that takes effect as a whole
    fn whole(&mut self, t: usize, e: &Ev) -> bool {
        let load = |m: &mut M, c: u8, from: Result<Option<Rc<Cl>>, &'static str>| match (from, &e.res) {
            (Err(x), Res::Err(y)) => x == *y,
            (Ok(Some(cl)), Res::Ok) => {
                m.add(t, c, cl);
                true
            }
            _ => false,
        };
        match &e.op {
            Op::On { c, on } => {
                let o = self.mine[t][*c as usize];
                let x = Rc::make_mut(&mut self.objs[o]);
                let err = Res::Err("secret");
                let put = |x: &mut Cl, l: Loc, v: V| {
                    if matches!(x.recs.get(&l), Some(None)) {
                        // the place of a revoked record that was not collected yet
                        e.res == err
                    } else {
                        x.vaults.insert(l.v);
                        x.recs.insert(l, Some(v));
                        e.res == Res::Ok
                    }
                };
                match on {
                    On::Write { l, .. } => put(x, *l, e.val),
                    On::Step { l } => match x.recs.get(l).copied().flatten() {
                        Some(v) => put(x, *l, stepped(&v)),
                        None => e.res == err,
                    },
                    On::Copy { v, a, b } => match x.recs.get(&Loc { v: *v, r: *a }).copied().flatten() {
                        Some(w) => put(x, Loc { v: *v, r: *b }, w),
                        None => e.res == err,
                    },
                    On::Read { l } => match x.recs.get(l).copied().flatten() {
                        Some(v) => e.res == Res::Bytes(Some(mac(&v))),
                        None => e.res == err,
                    },
                    On::Exists { l } => e.res == Res::Bool(matches!(x.recs.get(l), Some(Some(_)))),
                    On::VaultExists { v } => e.res == Res::Bool(x.vaults.contains(v)),
                    On::Revoke { l, .. } => {
                        if let Some(v) = x.recs.get_mut(l) {
                            *v = None;
                        }
                        e.res == Res::Ok
                    }
                    On::Collect { v } => {
                        x.recs.retain(|k, w| k.v != *v || w.is_some());
                        e.res == Res::Bool(x.vaults.contains(v))
                    }
                    On::Delete { .. } => unreachable!(),
                }
            }
            Op::Store { c, s } => {
                let st = if *c == 2 {
                    &mut self.inst
                } else {
                    let o = self.mine[t][*c as usize];
                    &mut Rc::make_mut(&mut self.objs[o]).store
                };
                let is = |v: Option<V>| e.res == Res::Bytes(v.map(|v| sval(&v)));
                match s {
                    St::Put { k } => is(st.insert(*k, e.val)),
                    St::Get { k } => is(st.get(k).copied()),
                    St::Del { k } => is(st.remove(k)),
                    St::Has { k } => e.res == Res::Bool(st.contains_key(k)),
                    St::Keys => e.res == Res::Keys(st.keys().map(|k| skey(*k)).collect()),
                    St::Clear => {
                        st.clear();
                        e.res == Res::Ok
                    }
                }
            }
            Op::Create { c } => {
                self.add(t, *c, Rc::new(Cl::default()));
                e.res == Res::Ok
            }
            Op::Get { c } => match self.reg[*c as usize] {
                Some(o) => {
                    self.mine[t][*c as usize] = o;
                    e.res == Res::Ok
                }
                None => e.res == Res::Err("absent"),
            },
            Op::LoadMem { c } => {
                let from = match (self.reg[*c as usize], self.snap.get(c)) {
                    (Some(_), _) => Err("already loaded"),
                    (None, None) => Err("absent"),
                    (None, Some(x)) => Ok(Some(x.clone())),
                };
                load(self, *c, from)
            }
            Op::LoadFile { c, f, k } => {
                if self.reg[*c as usize].is_some() {
                    return load(self, *c, Err("already loaded"));
                }
                match self.files[*f as usize].clone() {
                    None => load(self, *c, Err("no file")),
                    Some((fk, _)) if fk != *k => load(self, *c, Err("other")),
                    Some((_, states)) => match states.get(c).cloned() {
                        Some(x) => {
                            self.snap = states;
                            self.key = self.key.map(|(k, _)| (k, false));
                            load(self, *c, Ok(Some(x)))
                        }
                        // see the findings of C03
                        None if e.res == Res::Ok => {
                            self.snap = states;
                            self.key = self.key.map(|(k, _)| (k, false));
                            load(self, *c, Ok(Some(Rc::new(Cl::default()))))
                        }
                        None => matches!(e.res, Res::Err(_)),
                    },
                }
            }
            Op::LoadSnap { f, k } => match self.files[*f as usize].clone() {
                None => e.res == Res::Err("no file"),
                Some((fk, _)) if fk != *k => e.res == Res::Err("other"),
                Some((_, states)) => {
                    self.snap = states;
                    self.key = self.key.map(|(k, _)| (k, false));
                    e.res == Res::Ok
                }
            },
            Op::Unload { c } => match self.reg[*c as usize].take() {
                Some(_) => e.res == Res::Ok,
                None => e.res == Res::Err("absent"),
            },
            Op::Purge { c } => {
                self.reg[*c as usize] = None;
                self.snap.remove(c);
                e.res == Res::Ok
            }
            Op::WriteClient { c } => match self.reg[*c as usize] {
                Some(o) => {
                    self.snap.insert(*c, self.objs[o].clone());
                    e.res == Res::Ok
                }
                None => e.res == Res::Err("absent"),
            },
            Op::StoreKey { k } => {
                self.key = Some((*k, true));
                e.res == Res::Ok
            }
            Op::Commit { .. } | Op::CommitStored { .. } | Op::Clear => unreachable!(),
        }
    }
}
fn fingerprint(m: &M) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    m.hash(&mut h);
    h.finish()
}
/// What can be seen at the end.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Seen {
    recs: BTreeMap<Loc, Vec<u8>>,
    store: BTreeMap<u8, Vec<u8>>,
}
fn seen_model(c: &Cl) -> Seen {
    Seen { recs: c.live().iter().map(|(l, v)| (*l, mac(v))).collect(), store: c.store.iter().map(|(k, v)| (*k, sval(v))).collect() }
}
fn seen_store(s: &Store) -> vh::R<BTreeMap<u8, Vec<u8>>> {
    let mut out = BTreeMap::new();
    for k in s.keys().map_err(|e| Failure::new("store", e.to_string()))? {
        ensure!(k.len() == 2 && k[0] == b'k', "store", "an unknown key is listed: {}", hex(&k));
        let v = s.get(&k).map_err(|e| Failure::new("store", e.to_string()))?;
        out.insert(k[1], v.ok_or_else(|| Failure::new("store", "a listed key has no value"))?);
    }
    Ok(out)
}
fn seen_client(c: &Client) -> vh::R<Seen> {
    let mut recs = BTreeMap::new();
    for v in 0..2 {
        for r in 0..2 {
            let l = Loc { v, r };
            let ex = c.record_exists(&l.get()).map_err(|e| Failure::new("exists", e.to_string()))?;
            match do_read(c, l) {
                Ok(m) if ex => {
                    recs.insert(l, m);
                }
                Err(_) if !ex => {}
                r => fail!("exists", "record {l:?} reported present {ex}, read {:?}", r.map(|m| hex(&m))),
            }
        }
    }
    Ok(Seen { recs, store: seen_store(&c.store())? })
}
struct End {
    mine: Vec<Vec<Seen>>,
    reg: Vec<Option<Seen>>,
    snap: Vec<Option<Seen>>,
    inst: BTreeMap<u8, Vec<u8>>,
    /// key and contents
    files: Vec<Option<(u8, Vec<Option<Seen>>)>>,
}
fn look(w: &Real, mine: &[Vec<Client>]) -> vh::R<End> {
    let mut e = End { mine: vec![], reg: vec![], snap: vec![], inst: seen_store(&w.hold.store())?, files: vec![] };
    for t in mine {
        e.mine.push(t.iter().map(seen_client).collect::<vh::R<_>>()?);
    }
    for c in 0..NC {
        e.reg.push(match w.hold.get_client(client_path(c)) {
            Ok(c) => Some(seen_client(&c)?),
            Err(ClientError::ClientDataNotPresent) => None,
            Err(e) => fail!("registry", "at the end: {e}"),
        });
    }
    for f in 0..2 {
        let p = SnapshotPath::from_path(w.path(f));
        if !p.exists() {
            e.files.push(None);
            continue;
        }
        let mut got = None;
        for k in 0..2 {
            let h = Stronghold::default();
            if h.load_snapshot(&provider(k), &p).is_ok() {
                let mut cs = vec![];
                for c in 0..NC {
                    cs.push(match h.load_client(client_path(c)) {
                        Ok(c) => Some(seen_client(&c)?),
                        Err(ClientError::ClientDataNotPresent) => None,
                        Err(e) => fail!("file", "client {c} of file {f}: {e}"),
                    });
                }
                got = Some((k, cs));
            }
        }
        ensure!(got.is_some(), "file", "file {f} opens with neither of the keys");
        e.files.push(got);
    }
    for c in 0..NC {
        if let Ok(x) = w.hold.get_client(client_path(c)) {
            w.hold.unload_client(x).map_err(|e| Failure::new("registry", format!("at the end: {e}")))?;
        }
        e.snap.push(match w.hold.load_client(client_path(c)) {
            Ok(c) => Some(seen_client(&c)?),
            Err(ClientError::ClientDataNotPresent) => None,
            Err(e) => fail!("registry", "at the end: {e}"),
        });
    }
    Ok(e)
}
fn agrees(m: &M, e: &End) -> bool {
    let per = |x: &BTreeMap<u8, Rc<Cl>>, s: &[Option<Seen>]| (0..NC).all(|c| x.get(&c).map(|x| seen_model(x)) == s[c as usize]);
    m.inst.iter().map(|(k, v)| (*k, sval(v))).collect::<BTreeMap<_, _>>() == e.inst
        && (0..NC as usize).all(|c| m.reg[c].map(|o| seen_model(&m.objs[o])) == e.reg[c])
        && m.mine.iter().zip(&e.mine).all(|(a, b)| a.iter().zip(b).all(|(o, s)| seen_model(&m.objs[*o]) == *s))
        && per(&m.snap, &e.snap)
        && m.files.iter().zip(&e.files).all(|(a, b)| match (a, b) {
            (None, None) => true,
            (Some((k, x)), Some((l, s))) => k == l && per(x, s),
            _ => false,
        })
}
enum Found {
    Yes,
    No,
    Unknown,
}
fn explain(m0: M, evs: &[Vec<Ev>], end: &End) -> Found {
    let mut seen = HashSet::new();
    let mut todo = vec![m0];
    while let Some(m) = todo.pop() {
        if !seen.insert(fingerprint(&m)) {
            continue;
        }
        if seen.len() > 60_000 {
            return Found::Unknown;
        }
        let cur: Vec<Option<&Ev>> = (0..evs.len()).map(|t| evs[t].get(m.done[t])).collect();
        if cur.iter().all(|c| c.is_none()) {
            if agrees(&m, end) {
                return Found::Yes;
            }
            continue;
        }
        for t in 0..evs.len() {
            let Some(e) = cur[t] else { continue };
            // calls that returned before this one began come first
            if m.prog[t].is_none() && cur.iter().flatten().any(|x| x.ret < e.inv) {
                continue;
            }
            todo.extend(m.next(t, e));
        }
    }
    Found::No
}
fn run_small(cs: &Small) -> vh::R<Out> {
    let (mut overlaps, mut unknown) = (0, 0);
    for n in 0..cs.runs as usize {
        let nt = cs.threads.len();
        let w = Real { hold: Stronghold::default(), dir: vh::TempDir::new() };
        let mut first: Vec<Client> = (0..NC).map(|c| w.hold.create_client(client_path(c)).unwrap()).collect();
        let mut m = M::start(nt);
        // what happens before, in order
        for (i, op) in cs.before.iter().enumerate() {
            let val = value(9, i, n);
            let res = np("before", AssertUnwindSafe(|| w.exec(&mut first, op, &val)))?;
            let ev = Ev { op: *op, val, inv: 0, ret: 0, res };
            loop {
                // the parts of one call in any order
                let d = m.done[0];
                let Some(x) = m.next(0, &ev).into_iter().next() else { fail!("sequential", "before the threads, call {i} {op:?} gives {:?}, which the model does not", ev.res) };
                m = x;
                if m.done[0] != d {
                    break;
                }
            }
        }
        m.mine = vec![m.mine[0]; nt];
        m.done = vec![0; nt];
        let clock = AtomicU64::new(1);
        let bar = Barrier::new(nt);
        let res: Vec<Result<(Vec<Ev>, Vec<Client>), String>> = jitter(cs.jitter as u32, 91 + n as u64 * 7919, |jit| {
            std::thread::scope(|s| {
                let hs: Vec<_> = cs
                    .threads
                    .iter()
                    .enumerate()
                    .map(|(t, ops)| {
                        let (w, clock, bar, mut mine) = (&w, &clock, &bar, first.clone());
                        s.spawn(move || {
                            let _p = jit.join();
                            bar.wait();
                            vh::no_panic(AssertUnwindSafe(|| {
                                let mut evs = vec![];
                                for (i, op) in ops.iter().enumerate() {
                                    let val = value(t, i, n);
                                    let inv = clock.fetch_add(1, SeqCst);
                                    let res = w.exec(&mut mine, op, &val);
                                    let ret = clock.fetch_add(1, SeqCst);
                                    evs.push(Ev { op: *op, val, inv, ret, res });
                                }
                                (evs, mine)
                            }))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        });
        let (mut evs, mut mine) = (vec![], vec![]);
        for r in res {
            match r {
                Ok((e, c)) => {
                    evs.push(e);
                    mine.push(c);
                }
                Err(e) => fail!("panic", "a thread panicked: {e}"),
            }
        }
        let flat: Vec<&Ev> = evs.iter().flatten().collect();
        if flat.iter().any(|a| flat.iter().any(|b| a.inv < b.inv && b.inv < a.ret)) {
            overlaps += 1;
        }
        let end = np("at the end", AssertUnwindSafe(|| look(&w, &mine)))??;
        match explain(m, &evs, &end) {
            Found::Yes => {}
            Found::Unknown => unknown += 1,
            Found::No => {
                let mut all: Vec<(usize, Ev)> = evs.iter().enumerate().flat_map(|(t, v)| v.iter().map(move |e| (t, e.clone()))).collect();
                all.sort_by_key(|x| x.1.inv);
                let txt: Vec<String> = all
                    .iter()
                    .map(|(t, e)| {
                        let r = match &e.res {
                            Res::Bytes(Some(b)) => format!("{}", hex(&b[..4])),
                            r => format!("{r:?}"),
                        };
                        format!("T{t} [{}-{}] {:?} -> {r}", e.inv, e.ret, e.op)
                    })
                    .collect();
                let h = |s: &Seen| format!("{{{} {}}}", s.recs.iter().map(|(l, m)| format!("{}/{}={}", l.v, l.r, hex(&m[..4]))).collect::<Vec<_>>().join(" "), s.store.iter().map(|(k, v)| format!("k{k}={}", hex(&v[..4]))).collect::<Vec<_>>().join(" "));
                fail!("no-order", "run {n}: no sequential order of the calls explains their results and the final state: {}; at the end: registered {:?}, snapshot {:?}, handles {:?}, files {:?}, instance store {}",
                    txt.join("; "),
                    end.reg.iter().map(|s| s.as_ref().map(h)).collect::<Vec<_>>(),
                    end.snap.iter().map(|s| s.as_ref().map(h)).collect::<Vec<_>>(),
                    end.mine.iter().map(|t| t.iter().map(h).collect::<Vec<_>>()).collect::<Vec<_>>(),
                    end.files.iter().map(|f| f.as_ref().map(|(k, s)| (k, s.iter().map(|s| s.as_ref().map(h)).collect::<Vec<_>>()))).collect::<Vec<_>>(),
                    end.inst.len())
            }
        }
    }
    Ok(Out::new(overlaps * 4 > cs.runs as usize).tag_if(unknown > 0, "search given up").tag_if(overlaps > 0, "overlapping calls").tag(format!("{} threads", cs.threads.len())))
}

// ---------------------------------------------------------------- long programs on places of their own
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Own {
    Write { c: u8, r: u8, p: bool },
    Step { c: u8, r: u8 },
    Copy { c: u8, a: u8, b: u8 },
    Read { c: u8, r: u8 },
    Exists { c: u8, r: u8 },
    Delete { c: u8, r: u8 },
    Revoke { c: u8, r: u8 },
    Put { c: u8, k: u8 },
    Get { c: u8, k: u8 },
    Del { c: u8, k: u8 },
    /// the record that all threads advance
    Shared { c: u8 },
    /// a fresh handle of the client
    Handle { c: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    threads: Vec<Vec<Own>>,
    /// all threads in one vault, or in one each
    together: bool,
    writers: u8,
    churn: bool,
    jitter: u8,
    rounds: u8,
}
fn own() -> BoxedStrategy<Own> {
    let c = || prop_oneof![3 => Just(0u8), 1 => 0..NC];
    let r = || 0u8..3;
    prop_oneof![
        5 => (c(), r(), any::<bool>()).prop_map(|(c, r, p)| Own::Write { c, r, p }),
        5 => (c(), r()).prop_map(|(c, r)| Own::Step { c, r }),
        2 => (c(), r(), r()).prop_map(|(c, a, b)| Own::Copy { c, a, b }),
        5 => (c(), r()).prop_map(|(c, r)| Own::Read { c, r }),
        2 => (c(), r()).prop_map(|(c, r)| Own::Exists { c, r }),
        2 => (c(), r()).prop_map(|(c, r)| Own::Delete { c, r }),
        1 => (c(), r()).prop_map(|(c, r)| Own::Revoke { c, r }),
        4 => (c(), r()).prop_map(|(c, k)| Own::Put { c, k }),
        3 => (c(), r()).prop_map(|(c, k)| Own::Get { c, k }),
        2 => (c(), r()).prop_map(|(c, k)| Own::Del { c, k }),
        4 => c().prop_map(|c| Own::Shared { c }),
        1 => c().prop_map(|c| Own::Handle { c }),
    ]
    .boxed()
}
fn long(t: Tier) -> BoxedStrategy<Long> {
    let n = if t == Tier::Quick { 30 } else { 80 };
    (prop::collection::vec(prop::collection::vec(own(), 4..n), 2..5), any::<bool>(), 0u8..3, any::<bool>(), prop_oneof![1 => Just(0u8), 3 => 3u8..60], 1u8..6)
        .prop_map(|(threads, together, writers, churn, jitter, rounds)| Long { threads, together, writers, churn, jitter, rounds })
        .boxed()
}
/// What a thread has made of its places in one client.
#[derive(Clone, Debug, Default, PartialEq)]
struct Mine {
    recs: BTreeMap<u8, V>,
    store: BTreeMap<u8, V>,
    shared: u64,
}
struct Past {
    /// per client: clock before and after the call that led to it, and the state
    states: Vec<Vec<(u64, u64, Mine)>>,
}
fn place(cs: &Long, t: usize, r: u8) -> Location {
    Location::generic(if cs.together { b"common".to_vec() } else { format!("vault {t}").into_bytes() }, format!("{t}/{r}"))
}
fn own_key(t: usize, k: u8) -> Vec<u8> {
    format!("{t}/{k}").into_bytes()
}
fn shared_place() -> Location {
    Location::generic("shared", "counter")
}
fn worker(cs: &Long, hold: &Stronghold, t: usize, ops: &[Own], clock: &AtomicU64, revoked: &mut BTreeSet<(u8, u8)>) -> vh::R<Past> {
    let bad = |sig: &str, e: String| Failure::new(sig, e);
    let mut cl: Vec<Client> = (0..NC).map(|c| hold.get_client(client_path(c)).map_err(|e| bad("handle", format!("thread {t}: get_client: {e}")))).collect::<vh::R<_>>()?;
    let mut now = vec![Mine::default(); NC as usize];
    let mut past = Past { states: vec![vec![(0, 0, Mine::default())]; NC as usize] };
    for round in 0..cs.rounds as usize {
        for (i, o) in ops.iter().enumerate() {
            let what = format!("thread {t}, round {round}, call {i} {o:?}");
            let val = value(t, i, round);
            let err = |e: &dyn std::fmt::Display| Failure::new("refused", format!("{what}: {e}"));
            let t0 = clock.fetch_add(1, SeqCst);
            let c = match *o {
                Own::Write { c, r, p } => {
                    let l = place(cs, t, r);
                    let x = &cl[c as usize];
                    let res = if p { x.execute_procedure(WriteVault { data: val.to_vec(), location: l }).map_err(|e| e.to_string()) } else { x.vault(l.vault_path()).write_secret(l.clone(), val.to_vec()).map_err(|e| e.to_string()) };
                    match res {
                        Ok(()) => {
                            revoked.remove(&(c, r));
                            now[c as usize].recs.insert(r, val);
                        }
                        // revoked and not collected yet, by this thread or by a collection of another
                        Err(_) if revoked.contains(&(c, r)) => {}
                        Err(e) => return Err(err(&e)),
                    }
                    c
                }
                Own::Step { c, r } => {
                    let l = place(cs, t, r);
                    let res = cl[c as usize].execute_procedure(Hkdf { hash_type: Sha2Hash::Sha256, salt: b"salt".to_vec(), label: b"next".to_vec(), ikm: l.clone(), okm: l });
                    match (res, now[c as usize].recs.get_mut(&r)) {
                        (Ok(()), Some(v)) => *v = stepped(v),
                        (Err(_), None) => {}
                        (Ok(()), None) => fail!("phantom", "{what}: worked on a record that is not there"),
                        (Err(e), Some(_)) => return Err(err(&e)),
                    }
                    c
                }
                Own::Copy { c, a, b } => {
                    let res = cl[c as usize].execute_procedure(CopyRecord { source: place(cs, t, a), target: place(cs, t, b) });
                    match (res, now[c as usize].recs.get(&a).copied()) {
                        (Ok(()), Some(v)) => {
                            revoked.remove(&(c, b));
                            now[c as usize].recs.insert(b, v);
                        }
                        (Err(_), None) => {}
                        (Err(_), Some(_)) if revoked.contains(&(c, b)) => {}
                        (Ok(()), None) => fail!("phantom", "{what}: worked on a record that is not there"),
                        (Err(e), Some(_)) => return Err(err(&e)),
                    }
                    c
                }
                Own::Read { c, r } => {
                    let res = cl[c as usize].execute_procedure(Hmac { hash_type: Sha2Hash::Sha256, msg: b"who".to_vec(), key: place(cs, t, r) });
                    match (res, now[c as usize].recs.get(&r)) {
                        (Ok(m), Some(v)) => ensure!(m == mac(v), "value", "{what}: another value than the one written"),
                        (Err(_), None) => {}
                        (Ok(_), None) => fail!("phantom", "{what}: read a record that is not there"),
                        (Err(e), Some(_)) => return Err(err(&e)),
                    }
                    c
                }
                Own::Exists { c, r } => {
                    let e = cl[c as usize].record_exists(&place(cs, t, r)).map_err(|e| err(&e))?;
                    ensure_eq!(e, now[c as usize].recs.contains_key(&r), "exists", "{what}");
                    c
                }
                Own::Delete { c, r } | Own::Revoke { c, r } => {
                    let l = place(cs, t, r);
                    let v = cl[c as usize].vault(l.vault_path());
                    let rp = format!("{t}/{r}");
                    let res = if matches!(o, Own::Revoke { .. }) { v.revoke_secret(rp) } else { v.delete_secret(rp).map(|_| ()) };
                    res.map_err(|e| err(&e))?;
                    if now[c as usize].recs.remove(&r).is_some() {
                        revoked.insert((c, r));
                    }
                    if matches!(o, Own::Delete { .. }) {
                        revoked.retain(|(d, _)| *d != c);
                    }
                    c
                }
                Own::Put { c, k } => {
                    let old = cl[c as usize].store().insert(own_key(t, k), val.to_vec(), None).map_err(|e| err(&e))?;
                    ensure_eq!(old, now[c as usize].store.insert(k, val).map(|v| v.to_vec()), "store", "{what}: the value before");
                    c
                }
                Own::Get { c, k } => {
                    let v = cl[c as usize].store().get(&own_key(t, k)).map_err(|e| err(&e))?;
                    ensure_eq!(v, now[c as usize].store.get(&k).map(|v| v.to_vec()), "store", "{what}");
                    c
                }
                Own::Del { c, k } => {
                    let v = cl[c as usize].store().delete(&own_key(t, k)).map_err(|e| err(&e))?;
                    ensure_eq!(v, now[c as usize].store.remove(&k).map(|v| v.to_vec()), "store", "{what}: the value before");
                    c
                }
                Own::Shared { c } => {
                    cl[c as usize]
                        .execute_procedure(Hkdf { hash_type: Sha2Hash::Sha256, salt: b"salt".to_vec(), label: b"next".to_vec(), ikm: shared_place(), okm: shared_place() })
                        .map_err(|e| err(&e))?;
                    now[c as usize].shared += 1;
                    c
                }
                Own::Handle { c } => {
                    cl[c as usize] = hold.get_client(client_path(c)).map_err(|e| err(&e))?;
                    c
                }
            } as usize;
            let t1 = clock.fetch_add(1, SeqCst);
            if past.states[c].last().unwrap().2 != now[c] {
                past.states[c].push((t0, t1, now[c].clone()));
            }
        }
    }
    Ok(past)
}
/// Contents of a client state in the terms of the threads
struct Whole {
    /// per thread
    mine: Vec<Mine>,
    shared: Option<Vec<u8>>,
}
fn whole(cs: &Long, st: &ClientState, what: &str) -> vh::R<Whole> {
    let mut recs = view::records(st, what)?;
    let mut out = Whole { mine: vec![], shared: recs.remove(&shared_place().resolve()) };
    let mut store: BTreeMap<Vec<u8>, Vec<u8>> = st.2.keys().into_iter().map(|k| (k.clone(), st.2.get(&k).cloned().unwrap_or_default())).collect();
    for t in 0..cs.threads.len() {
        let mut m = Mine::default();
        for r in 0..3 {
            if let Some(v) = recs.remove(&place(cs, t, r).resolve()) {
                m.recs.insert(r, v.try_into().map_err(|v: Vec<u8>| Failure::new("file", format!("{what}: a record of {} bytes", v.len())))?);
            }
            if let Some(v) = store.remove(&own_key(t, r)) {
                m.store.insert(r, v.try_into().map_err(|v: Vec<u8>| Failure::new("file", format!("{what}: a value of {} bytes", v.len())))?);
            }
        }
        out.mine.push(m);
    }
    ensure!(recs.is_empty() && store.is_empty(), "file", "{what}: {} records and {} store entries that nobody made", recs.len(), store.len());
    Ok(out)
}
fn run_long(cs: &Long) -> vh::R<Out> {
    let hold = Stronghold::default();
    let dir = vh::TempDir::new();
    let first: V = value(9, 0, 0);
    for c in 0..NC {
        let cl = hold.create_client(client_path(c)).unwrap();
        cl.execute_procedure(WriteVault { data: first.to_vec(), location: shared_place() }).map_err(|e| Failure::new("setup", e.to_string()))?;
    }
    let clock = AtomicU64::new(1);
    let stop = AtomicBool::new(false);
    let left = AtomicU64::new(cs.threads.len() as u64);
    let total = cs.threads.len() + cs.writers as usize + cs.churn as usize;
    let bar = Barrier::new(total);
    // files as they were read back, with the clock before and after the commit
    let files: Mutex<Vec<(u64, u64, Vec<ClientState>)>> = Mutex::new(vec![]);
    let (hold_, files_) = (&hold, &files);
    let res: Vec<vh::R<Option<Past>>> = jitter(cs.jitter as u32, 17 + cs.rounds as u64, |jit| {
        std::thread::scope(|s| {
            let mut hs = vec![];
            let (clock, stop, bar, dir) = (&clock, &stop, &bar, &dir);
            let caught = |r: Result<vh::R<Option<Past>>, String>| r.unwrap_or_else(|e| Err(Failure::new("panic", format!("a thread panicked: {e}"))));
            let nw = &left;
            for (t, ops) in cs.threads.iter().enumerate() {
                hs.push(s.spawn(move || {
                    let _p = jit.join();
                    bar.wait();
                    let r = caught(vh::no_panic(AssertUnwindSafe(|| worker(cs, hold_, t, ops, clock, &mut BTreeSet::new()).map(Some))));
                    if nw.fetch_sub(1, SeqCst) == 1 {
                        stop.store(true, SeqCst);
                    }
                    r
                }));
            }
            for n in 0..cs.writers {
                hs.push(s.spawn(move || {
                    let _p = jit.join();
                    bar.wait();
                    caught(vh::no_panic(AssertUnwindSafe(|| {
                        // commits to one file, by turns with two keys
                        for i in 0..20u8 {
                            let p = SnapshotPath::from_path(dir.path().join(format!("w{n}")));
                            let k = i % 2;
                            let t0 = clock.fetch_add(1, SeqCst);
                            hold_.commit_with_keyprovider(&p, &provider(k)).map_err(|e| Failure::new("commit", format!("beside other threads: {e}")))?;
                            let t1 = clock.fetch_add(1, SeqCst);
                            let f = Snapshot::read_from_snapshot(&p, view::raw_key(&provider(k)), None).map_err(|e| Failure::new("file", format!("written beside other threads: {e}")))?;
                            let mut sts = vec![];
                            for c in 0..NC {
                                let id = ClientId::load_from_path(&client_path(c), &client_path(c));
                                ensure!(f.has_data(id), "file", "client {c} is missing in a file written beside other threads");
                                sts.push(f.get_state(id).map_err(|e| Failure::new("file", e.to_string()))?);
                            }
                            files_.lock().unwrap().push((t0, t1, sts));
                            if stop.load(SeqCst) {
                                break;
                            }
                        }
                        Ok(None)
                    })))
                }));
            }
            if cs.churn {
                hs.push(s.spawn(move || {
                    let _p = jit.join();
                    bar.wait();
                    caught(vh::no_panic(AssertUnwindSafe(|| {
                        // a client of its own comes and goes
                        let e = |e: ClientError| Failure::new("churn", e.to_string());
                        for i in 0..60usize {
                            let v = value(8, i, 0);
                            let c = hold_.create_client("churn").map_err(e)?;
                            c.store().insert(vec![1], v.to_vec(), None).map_err(e)?;
                            do_write(&c, Loc { v: 0, r: 0 }, &v, true).map_err(|e| Failure::new("churn", e))?;
                            hold_.write_client("churn").map_err(e)?;
                            let c = hold_.unload_client(c).map_err(e)?;
                            ensure!(hold_.get_client("churn").is_err(), "churn", "an unloaded client is still there");
                            let d = hold_.load_client("churn").map_err(e)?;
                            for (c, what) in [(&c, "unloaded"), (&d, "loaded again")] {
                                ensure_eq!(c.store().get(&[1]).map_err(e)?, Some(v.to_vec()), "churn", "store of the {what} client");
                                ensure!(do_read(c, Loc { v: 0, r: 0 }) == Ok(mac(&v)), "churn", "record of the {what} client");
                            }
                            if i % 3 == 0 {
                                hold_.purge_client(d).map_err(e)?;
                                ensure!(hold_.load_client("churn").is_err(), "churn", "a purged client is still there");
                            }
                            if stop.load(SeqCst) {
                                break;
                            }
                        }
                        Ok(None)
                    })))
                }));
            }
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    });
    let mut pasts = vec![];
    for r in res {
        if let Some(p) = r? {
            pasts.push(p);
        }
    }
    // the shared record after so many steps
    let most: u64 = pasts.iter().flat_map(|p| p.states.iter().map(|s| s.last().unwrap().2.shared)).sum();
    let mut chain = vec![first];
    for _ in 0..most {
        chain.push(stepped(chain.last().unwrap()));
    }
    let judge = |st: &ClientState, c: usize, t0: u64, t1: u64, what: &str| -> vh::R<bool> {
        let w = whole(cs, st, what)?;
        let mut sums: BTreeSet<u64> = [0].into();
        let mut moved = false;
        for (t, p) in pasts.iter().enumerate() {
            let hist = &p.states[c];
            let mut may = BTreeSet::new();
            let mut late = None;
            for (i, (begin, _, m)) in hist.iter().enumerate() {
                // current at some time between t0 and t1: begun before t1, and the next one not finished before t0
                let over = hist.get(i + 1).is_some_and(|n| n.1 < t0);
                let same = m.recs == w.mine[t].recs && m.store == w.mine[t].store;
                if same && *begin < t1 && !over {
                    may.insert(m.shared);
                }
                if same {
                    late = Some(i);
                }
            }
            moved |= hist.iter().any(|h| h.0 < t1 && h.1 > t0);
            ensure!(!may.is_empty(), "cut", "{what}: client {c} holds {:?} and {:?} of thread {t}, {}", w.mine[t].recs.keys(), w.mine[t].store.keys(), match late {
                Some(i) => format!("which it held only {} the commit (state {i} of {})", if hist[i].0 >= t1 { "after" } else { "before" }, hist.len()),
                None => "which it never held at one time".to_string(),
            });
            sums = sums.iter().flat_map(|a| may.iter().map(move |b| a + b)).collect();
        }
        let Some(v) = &w.shared else { fail!("cut", "{what}: the shared record is missing in client {c}") };
        let n = chain.iter().position(|x| x[..] == v[..]);
        ensure!(n.is_some_and(|n| sums.contains(&(n as u64))), "shared", "{what}: the shared record of client {c} went through {n:?} steps, the threads made {sums:?}");
        Ok(moved)
    };
    let mut moving = 0;
    for (i, (t0, t1, sts)) in files.lock().unwrap().iter().enumerate() {
        for (c, st) in sts.iter().enumerate() {
            moving += judge(st, c, *t0, *t1, &format!("commit {i}"))? as usize;
        }
    }
    // at the end
    let p = SnapshotPath::from_path(dir.path().join("end"));
    let t0 = clock.fetch_add(1, SeqCst);
    hold.commit_with_keyprovider(&p, &provider(0)).map_err(|e| Failure::new("commit", format!("at the end: {e}")))?;
    let f = Snapshot::read_from_snapshot(&p, view::raw_key(&provider(0)), None).map_err(|e| Failure::new("file", format!("at the end: {e}")))?;
    for c in 0..NC {
        let st = f.get_state(ClientId::load_from_path(&client_path(c), &client_path(c))).map_err(|e| Failure::new("file", e.to_string()))?;
        judge(&st, c as usize, t0, u64::MAX, "at the end")?;
    }
    let n = files.lock().unwrap().len();
    Ok(Out::new(cs.threads.iter().map(|t| t.len()).sum::<usize>() >= 10).tag_if(n > 0, "commits").tag_if(moving > 0, "commits beside changes").tag_if(cs.churn, "clients coming and going"))
}

// ---------------------------------------------------------------- synchronisation beside other calls
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Sy {
    On { c: u8, on: On },
    /// from the other client, between vaults of one
    With { c: u8, keep: bool },
    Vaults { c: u8, a: u8, b: u8, keep: bool },
    Commit { f: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Syncs {
    threads: Vec<Vec<Sy>>,
    jitter: u8,
    rounds: u8,
}
fn syncs(_: Tier) -> BoxedStrategy<Syncs> {
    let c = || 0..NC;
    let one = prop_oneof![
        6 => (c(), on()).prop_map(|(c, on)| Sy::On { c, on }),
        3 => (c(), any::<bool>()).prop_map(|(c, keep)| Sy::With { c, keep }),
        2 => (c(), 0u8..2, 0u8..2, any::<bool>()).prop_map(|(c, a, b, keep)| Sy::Vaults { c, a, b, keep }),
        1 => (0u8..2).prop_map(|f| Sy::Commit { f }),
    ];
    (prop::collection::vec(prop::collection::vec(one, 1..8), 2..5), prop_oneof![1 => Just(0u8), 3 => 3u8..60], 1u8..8).prop_map(|(threads, jitter, rounds)| Syncs { threads, jitter, rounds }).boxed()
}
fn run_syncs(cs: &Syncs) -> vh::R<Out> {
    let hold = Stronghold::default();
    let dir = vh::TempDir::new();
    for c in 0..NC {
        let cl = hold.create_client(client_path(c)).unwrap();
        for v in 0..2 {
            do_write(&cl, Loc { v, r: 0 }, &value(9, c as usize, v as usize), false).map_err(|e| Failure::new("setup", e))?;
        }
    }
    let bar = Barrier::new(cs.threads.len());
    let res: Vec<Result<vh::R<usize>, String>> = jitter(cs.jitter as u32, 29 + cs.rounds as u64, |jit| {
        std::thread::scope(|s| {
            let hs: Vec<_> = cs
                .threads
                .iter()
                .enumerate()
                .map(|(t, ops)| {
                    let (hold, bar, dir) = (&hold, &bar, &dir);
                    s.spawn(move || {
                        let _p = jit.join();
                        bar.wait();
                        vh::no_panic(AssertUnwindSafe(|| {
                            let cl: Vec<Client> = (0..NC).map(|c| hold.get_client(client_path(c)).unwrap()).collect();
                            let mut n = 0;
                            for round in 0..cs.rounds as usize {
                                for (i, o) in ops.iter().enumerate() {
                                    // whether a single call succeeds depends on the others
                                    match *o {
                                        Sy::On { c, on } => {
                                            let w = Real { hold: Stronghold::default(), dir: vh::TempDir::new() };
                                            w.exec(&mut cl.clone(), &Op::On { c, on }, &value(t, i, round));
                                        }
                                        Sy::With { c, keep } => {
                                            let cfg = sh::sync::SyncClientsConfig::new(view::policy(keep));
                                            n += cl[c as usize].sync_with(&cl[1 - c as usize], cfg).is_ok() as usize;
                                        }
                                        Sy::Vaults { c, a, b, keep } => n += cl[c as usize].sync_vaults(vault_path(a), vault_path(b), None, view::policy(keep)).is_ok() as usize,
                                        Sy::Commit { f } => hold
                                            .commit_with_keyprovider(&SnapshotPath::from_path(dir.path().join(format!("f{f}"))), &provider(0))
                                            .map_err(|e| Failure::new("commit", e.to_string()))?,
                                    }
                                }
                            }
                            Ok(n)
                        }))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    });
    let mut n = 0;
    for r in res {
        n += r.map_err(|e| Failure::new("panic", format!("a thread panicked: {e}")))??;
    }
    // every value written, and those made from it
    let mut known: HashSet<Vec<u8>> = HashSet::new();
    let mut steps = 0;
    let mut base: Vec<V> = vec![];
    for c in 0..NC as usize {
        for v in 0..2 {
            base.push(value(9, c, v));
        }
    }
    for (t, ops) in cs.threads.iter().enumerate() {
        for round in 0..cs.rounds as usize {
            for (i, o) in ops.iter().enumerate() {
                match o {
                    Sy::On { on: On::Write { .. }, .. } => base.push(value(t, i, round)),
                    Sy::On { on: On::Step { .. }, .. } => steps += 1,
                    _ => {}
                }
            }
        }
    }
    for mut v in base {
        for _ in 0..=steps {
            known.insert(mac(&v));
            v = stepped(&v);
        }
    }
    // the state is sound: what is listed can be read and holds something that was written
    let p = SnapshotPath::from_path(dir.path().join("end"));
    hold.commit_with_keyprovider(&p, &provider(0)).map_err(|e| Failure::new("commit", format!("at the end: {e}")))?;
    let f = Snapshot::read_from_snapshot(&p, view::raw_key(&provider(0)), None).map_err(|e| Failure::new("file", format!("at the end: {e}")))?;
    for c in 0..NC {
        let cl = hold.get_client(client_path(c)).map_err(|e| Failure::new("registry", e.to_string()))?;
        let live = seen_client(&cl)?;
        let st = f.get_state(ClientId::load_from_path(&client_path(c), &client_path(c))).map_err(|e| Failure::new("file", e.to_string()))?;
        let recs = view::records(&st, "at the end")?;
        for (l, m) in &live.recs {
            ensure!(recs.get(&l.get().resolve()).is_some_and(|v| mac(v) == *m), "records", "record {l:?} of client {c} is not in the file or another one");
        }
        for (k, v) in &recs {
            ensure!(known.contains(&mac(v)), "records", "record {k:?} of client {c} holds a value that nobody wrote");
        }
        // and goes on working
        for v in 0..2 {
            for r in 0..2 {
                let l = Loc { v, r };
                let what = format!("client {c} after the threads");
                cl.vault(vault_path(v)).delete_secret(l.record_path().unwrap()).map_err(|e| Failure::new("delete", format!("{what}: {e}")))?;
                do_write(&cl, l, &[7; 32], true).map_err(|e| Failure::new("write", format!("{what}: {e}")))?;
                check_secret(&cl, &l.get(), Some(&[7; 32]), &what)?;
            }
        }
    }
    Ok(Out::new(n > 0).tag_if(n > 0, "synchronised"))
}

// ---------------------------------------------------------------- many calls on one thing
/// What happens to the other records of the vault
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Stir {
    Collect,
    Revoke,
    Delete,
    Write { p: bool },
    Step,
    Copy,
    Commit,
    WriteClient,
    Read,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Once {
    Load,
    LoadFile,
    Unload,
    /// removing an entry of a store
    Take { inst: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    /// calls on one or two keys of a store; per thread the calls that it repeats
    Keys { inst: bool, calls: Vec<Vec<St>> },
    /// the first records of a vault; per thread how it writes and whether the record is made from another vault
    Fresh { how: Vec<(bool, bool)> },
    /// one of the threads succeeds
    Once { what: Once, n: u8 },
    /// a record stays readable
    Stay { stir: Vec<Stir>, readers: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ham {
    what: What,
    n: u16,
    jitter: u8,
}
fn ham(_: Tier) -> BoxedStrategy<Ham> {
    let call = prop_oneof![6 => Just(St::Put { k: 0 }), 2 => (0u8..2).prop_map(|k| St::Get { k }), 1 => (0u8..2).prop_map(|k| St::Put { k }), 2 => (0u8..2).prop_map(|k| St::Del { k }), 1 => (0u8..2).prop_map(|k| St::Has { k })];
    let stir = prop_oneof![
        3 => Just(Stir::Collect), 2 => Just(Stir::Revoke), 2 => Just(Stir::Delete), 2 => any::<bool>().prop_map(|p| Stir::Write { p }), 1 => Just(Stir::Step),
        1 => Just(Stir::Copy), 1 => Just(Stir::Commit), 1 => Just(Stir::WriteClient), 1 => Just(Stir::Read)
    ];
    let once = prop_oneof![3 => Just(Once::Load), 1 => Just(Once::LoadFile), 2 => Just(Once::Unload), 2 => any::<bool>().prop_map(|inst| Once::Take { inst })];
    let what = prop_oneof![
        3 => (any::<bool>(), prop::collection::vec(prop::collection::vec(call, 1..4), 2..6)).prop_map(|(inst, calls)| What::Keys { inst, calls }),
        2 => prop::collection::vec((any::<bool>(), prop::bool::weighted(0.3)), 2..6).prop_map(|how| What::Fresh { how }),
        2 => (once, 2u8..6).prop_map(|(what, n)| What::Once { what, n }),
        3 => (prop::collection::vec(stir, 1..4), 1u8..3).prop_map(|(stir, readers)| What::Stay { stir, readers }),
    ];
    (what, 100u16..1000, prop_oneof![1 => Just(0u8), 3 => 2u8..60]).prop_map(|(what, n, jitter)| Ham { what, n, jitter }).boxed()
}
/// Runs threads together; their results in order.
fn together<T: Send>(pause: u8, n: usize, f: impl Fn(usize) -> vh::R<T> + Sync) -> vh::R<Vec<T>> {
    let bar = Barrier::new(n);
    let res: Vec<Result<vh::R<T>, String>> = jitter(pause as u32, 31 + n as u64, |jit| {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|t| {
                    let (f, bar) = (&f, &bar);
                    s.spawn(move || {
                        let _p = jit.join();
                        bar.wait();
                        vh::no_panic(AssertUnwindSafe(|| f(t)))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    });
    res.into_iter().map(|r| r.map_err(|e| Failure::new("panic", format!("a thread panicked: {e}")))?).collect()
}
/// One call on one key.
#[derive(Clone, Debug)]
struct Call {
    s: St,
    val: u64,
    /// value read or replaced
    got: Option<u64>,
    has: bool,
    inv: u64,
    ret: u64,
}
/// The calls on one key must follow from each other: every value is replaced or removed once, by a call that
/// is given it, and read only while it is there.
fn judge_key(k: u8, calls: &[Call], end: Option<u64>) -> vh::R<()> {
    let mut put: BTreeMap<u64, &Call> = BTreeMap::new();
    let mut ends: BTreeMap<u64, &Call> = BTreeMap::new();
    let (mut begun, mut removed) = (0usize, 0usize);
    for c in calls {
        if let St::Put { .. } = c.s {
            put.insert(c.val, c);
        }
    }
    for c in calls {
        if let (Some(v), true) = (c.got, !put.contains_key(&c.got.unwrap_or(0))) {
            fail!("value", "key {k}: {:?} is given {v}, which nobody stored", c.s);
        }
        match (c.s, c.got) {
            (St::Put { .. }, None) => begun += 1,
            (St::Put { .. }, Some(v)) | (St::Del { .. }, Some(v)) => {
                removed += matches!(c.s, St::Del { .. }) as usize;
                if let Some(o) = ends.insert(v, c) {
                    fail!("replaced-twice", "key {k}: {v} is replaced or removed by {:?} ({}) and by {:?} ({})", o.s, o.val, c.s, c.val);
                }
            }
            _ => {}
        }
    }
    ensure_eq!(begun, removed + end.is_some() as usize, "entries", "key {k}: insertions that found nothing, with {removed} removals");
    let left: Vec<u64> = put.keys().filter(|v| !ends.contains_key(v)).copied().collect();
    ensure!(left == end.into_iter().collect::<Vec<_>>(), "lost", "key {k}: neither replaced nor removed are {left:?}, at the end it holds {end:?}");
    let mut reads: BTreeMap<u64, Vec<&Call>> = BTreeMap::new();
    for c in calls {
        if let (St::Get { .. }, Some(v)) = (c.s, c.got) {
            reads.entry(v).or_default().push(c);
        }
    }
    // along each run of replacements no call may end before one that precedes it began
    for c in calls.iter().filter(|c| matches!(c.s, St::Put { .. }) && c.got.is_none()) {
        let (mut at, mut late) = (c, 0);
        let mut steps = 0;
        loop {
            ensure!(at.ret > late, "time", "key {k}: {:?} of {} takes effect after a call that began when it had returned", at.s, at.val);
            late = late.max(at.inv);
            if let St::Del { .. } = at.s {
                break;
            }
            let before = late;
            for r in reads.get(&at.val).into_iter().flatten() {
                ensure!(r.ret > before, "time", "key {k}: {} is read before it is stored", at.val);
                late = late.max(r.inv);
            }
            match ends.get(&at.val) {
                Some(n) => at = n,
                None => break,
            }
            steps += 1;
            ensure!(steps <= calls.len(), "circle", "key {k}: the replacements form a circle");
        }
    }
    Ok(())
}
fn run_ham(cs: &Ham) -> vh::R<Out> {
    let hold = Stronghold::default();
    let dir = vh::TempDir::new();
    let clients: Vec<Client> = (0..NC).map(|c| hold.create_client(client_path(c)).unwrap()).collect();
    let c = &clients[0];
    let limit = std::time::Instant::now() + std::time::Duration::from_millis(400);
    let over = || std::time::Instant::now() > limit;
    let er = |what: &str, e: String| Failure::new("call", format!("{what}: {e}"));
    let num = |v: Vec<u8>| -> vh::R<u64> { v.try_into().map(u64::from_le_bytes).map_err(|v: Vec<u8>| Failure::new("value", format!("a store holds {}", hex(&v)))) };
    let mut many = 0usize;
    let name;
    match &cs.what {
        What::Keys { inst, calls } => {
            name = "keys of a store";
            let store = if *inst { hold.store() } else { c.store() };
            let clock = AtomicU64::new(1);
            let all = together(cs.jitter, calls.len(), |t| {
                let mut out = vec![];
                let store = if *inst { hold.store() } else { hold.get_client(client_path(0)).map_err(|e| er("get_client", e.to_string()))?.store() };
                for i in 0..cs.n as u64 {
                    let s = calls[t][i as usize % calls[t].len()];
                    let val = (t as u64 + 1) << 32 | i;
                    let inv = clock.fetch_add(1, SeqCst);
                    let mut has = false;
                    let got = match s {
                        St::Put { k } => store.insert(skey(k), val.to_le_bytes().to_vec(), None),
                        St::Get { k } => store.get(&skey(k)),
                        St::Del { k } => store.delete(&skey(k)),
                        St::Has { k } => {
                            has = store.contains_key(&skey(k)).map_err(|e| er("contains_key", e.to_string()))?;
                            Ok(None)
                        }
                        _ => unreachable!(),
                    };
                    let ret = clock.fetch_add(1, SeqCst);
                    let got = got.map_err(|e| er("store", e.to_string()))?.map(num).transpose()?;
                    out.push(Call { s, val, got, has, inv, ret });
                    if i % 64 == 0 && over() {
                        break;
                    }
                }
                Ok(out)
            })?;
            for k in 0..2 {
                let end = store.get(&skey(k)).map_err(|e| er("get", e.to_string()))?.map(num).transpose()?;
                let mine: Vec<Call> = all.iter().flatten().filter(|c| matches!(c.s, St::Put { k: x } | St::Get { k: x } | St::Del { k: x } | St::Has { k: x } if x == k)).cloned().collect();
                // without removals an entry that was there stays
                if mine.iter().all(|c| !matches!(c.s, St::Del { .. })) {
                    let first = mine.iter().filter(|c| matches!(c.s, St::Put { .. })).map(|c| c.ret).min().unwrap_or(u64::MAX);
                    for c in mine.iter().filter(|c| c.inv > first) {
                        ensure!(match c.s { St::Has { .. } => c.has, _ => c.got.is_some() }, "gone", "key {k}: {:?} finds nothing although nobody removes entries", c.s);
                    }
                }
                judge_key(k, &mine, end)?;
                many += mine.len();
            }
        }
        What::Fresh { how } => {
            name = "first records of a vault";
            let src = Location::generic("source", "r");
            let first = value(7, 0, 0);
            c.vault("source").write_secret(src.clone(), first.to_vec()).map_err(|e| er("write", e.to_string()))?;
            let loc = |i: usize, t: usize| Location::generic(format!("fresh{i}"), format!("r{t}"));
            let rounds = cs.n as usize / 4;
            let bar = Barrier::new(how.len());
            let (stop, failed) = (AtomicBool::new(false), AtomicBool::new(false));
            let done = together(cs.jitter, how.len(), |t| {
                let mut n = 0;
                for i in 0..rounds {
                    if t == 0 && over() {
                        stop.store(true, SeqCst);
                    }
                    bar.wait();
                    if stop.load(SeqCst) {
                        break;
                    }
                    let (p, from) = how[t];
                    let l = loc(i, t);
                    let r = match (p, from) {
                        (true, true) => c
                            .execute_procedure(Hkdf { hash_type: Sha2Hash::Sha256, salt: b"salt".to_vec(), label: b"next".to_vec(), ikm: src.clone(), okm: l })
                            .map_err(|e| e.to_string()),
                        (false, true) => c.execute_procedure(CopyRecord { source: src.clone(), target: l }).map_err(|e| e.to_string()),
                        (true, false) => c.execute_procedure(WriteVault { data: value(t, i, 3).to_vec(), location: l }).map_err(|e| e.to_string()),
                        (false, false) => c.vault(format!("fresh{i}")).write_secret(l, value(t, i, 3).to_vec()).map_err(|e| e.to_string()),
                    };
                    // (no early return: the others wait at the barrier)
                    if let Err(e) = r {
                        failed.store(true, SeqCst);
                        bar.wait();
                        return Err(er("first record of a vault", e));
                    }
                    n += 1;
                    bar.wait();
                    if failed.load(SeqCst) {
                        break;
                    }
                }
                Ok(n)
            })?;
            let rounds = done.into_iter().min().unwrap_or(0);
            for i in 0..rounds {
                for (t, (p, from)) in how.iter().enumerate() {
                    let want = match (p, from) {
                        (true, true) => stepped(&first),
                        (false, true) => first,
                        _ => value(t, i, 3),
                    };
                    let got = c.execute_procedure(Hmac { hash_type: Sha2Hash::Sha256, msg: b"who".to_vec(), key: loc(i, t) }).map_err(|e| Failure::new("lost", format!("record of thread {t} in new vault {i}: {e}")))?;
                    ensure!(got == mac(&want), "lost", "the record of thread {t} in new vault {i} holds another value");
                }
            }
            many += rounds * how.len();
        }
        What::Once { what, n } => {
            name = "one succeeds";
            let n = *n as usize;
            let p = SnapshotPath::from_path(dir.path().join("f"));
            hold.write_client(client_path(0)).map_err(|e| er("write_client", e.to_string()))?;
            hold.commit_with_keyprovider(&p, &provider(0)).map_err(|e| er("commit", e.to_string()))?;
            let store = |inst: bool| if inst { hold.store() } else { c.store() };
            let bar = Barrier::new(n);
            let stop = AtomicBool::new(false);
            let wins = Mutex::new(vec![0usize; cs.n as usize]);
            let bad: Mutex<Option<Failure>> = Mutex::new(None);
            let done = together(cs.jitter, n, |t| {
                let mut k = 0;
                for i in 0..cs.n as usize {
                    if t == 0 {
                        let set = match what {
                            Once::Load | Once::LoadFile => match hold.get_client(client_path(0)) {
                                Ok(c) => hold.unload_client(c).map(drop),
                                Err(e) => Err(e),
                            },
                            Once::Unload if i > 0 => hold.load_client(client_path(0)).map(drop),
                            Once::Unload => Ok(()),
                            Once::Take { inst } => store(*inst).insert(skey(0), vec![1], None).map(drop),
                        };
                        if let Err(e) = set {
                            *bad.lock().unwrap() = Some(er("between the rounds", e.to_string()));
                        }
                        stop.store(over() || bad.lock().unwrap().is_some(), SeqCst);
                    }
                    bar.wait();
                    if stop.load(SeqCst) {
                        break;
                    }
                    let won = match what {
                        Once::Load => hold.load_client(client_path(0)).is_ok(),
                        Once::LoadFile => hold.load_client_from_snapshot(client_path(0), &provider(0), &p).is_ok(),
                        Once::Unload => hold.unload_client(c.clone()).is_ok(),
                        Once::Take { inst } => store(*inst).delete(&skey(0)).is_ok_and(|x| x.is_some()),
                    };
                    wins.lock().unwrap()[i] += won as usize;
                    k += 1;
                    bar.wait();
                }
                Ok(k)
            })?;
            if let Some(e) = bad.into_inner().unwrap() {
                return Err(e);
            }
            let rounds = done[0];
            for (i, w) in wins.into_inner().unwrap().into_iter().take(rounds).enumerate() {
                ensure_eq!(w, 1, "once", "round {i} of {what:?}: threads that succeeded");
            }
            many += rounds;
        }
        What::Stay { stir, readers } => {
            name = "a record stays";
            let (keep, val) = (Loc { v: 0, r: 0 }, value(7, 1, 0));
            do_write(c, keep, &val, false).map_err(|e| er("write", e))?;
            let other = Loc { v: 0, r: 1 };
            let stop = AtomicBool::new(false);
            let left = AtomicU64::new(stir.len() as u64);
            let done = together(cs.jitter, stir.len() + *readers as usize, |t| {
                let mut k = 0usize;
                if let Some(x) = stir.get(t) {
                    for i in 0..cs.n as usize {
                        if over() || stop.load(SeqCst) {
                            break;
                        }
                        // whether a call on the other record succeeds depends on the others
                        match x {
                            Stir::Collect => {
                                let r = c.vault(vault_path(0)).cleanup();
                                if !matches!(r, Ok(true)) {
                                    stop.store(true, SeqCst);
                                    fail!("collect", "collection in a vault that is there: {:?}", r.map_err(|e| e.to_string()));
                                }
                            }
                            Stir::Revoke => drop(c.vault(vault_path(0)).revoke_secret(other.record_path().unwrap())),
                            Stir::Delete => drop(c.vault(vault_path(0)).delete_secret(other.record_path().unwrap())),
                            Stir::Write { p } => drop(do_write(c, other, &value(t, i, 1), *p)),
                            Stir::Step => drop(do_step(c, other)),
                            Stir::Copy => drop(c.execute_procedure(CopyRecord { source: keep.get(), target: other.get() })),
                            Stir::Commit => hold.commit_with_keyprovider(&SnapshotPath::from_path(dir.path().join(format!("f{t}"))), &provider(0)).map_err(|e| er("commit", e.to_string()))?,
                            Stir::WriteClient => hold.write_client(client_path(0)).map_err(|e| er("write_client", e.to_string()))?,
                            Stir::Read => drop(do_read(c, other)),
                        }
                        k += 1;
                    }
                    left.fetch_sub(1, SeqCst);
                } else {
                    while left.load(SeqCst) > 0 && !over() {
                        let r = match k % 4 {
                            0 | 1 => do_read(c, keep).and_then(|m| if m == mac(&val) { Ok(()) } else { Err("it reads as another value".into()) }),
                            2 => match c.record_exists(&keep.get()) {
                                Ok(true) => Ok(()),
                                x => Err(format!("record_exists: {:?}", x.map_err(|e| e.to_string()))),
                            },
                            _ => match c.vault_exists(vault_path(0)) {
                                Ok(true) => Ok(()),
                                x => Err(format!("vault_exists: {:?}", x.map_err(|e| e.to_string()))),
                            },
                        };
                        if let Err(e) = r {
                            stop.store(true, SeqCst);
                            fail!("stays", "a record that nobody touches, beside {stir:?}: {e}");
                        }
                        k += 1;
                    }
                }
                Ok(k)
            })?;
            check_secret(c, &keep.get(), Some(&val), "at the end")?;
            many += done.iter().sum::<usize>();
        }
    }
    Ok(Out::new(many >= 100).tag(name))
}

fn main() {
    vh::main(vec![Property {
        id: "C23",
        level: "exploration",
        assumptions: &["schedules are those of the machine, with threads stopped at arbitrary instructions for some microseconds",
            "calls that consist of several documented parts are judged part by part: a commit and clear per client, a deletion as revocation and collection",
            "synchronisation is documented as susceptible to data races: beside other calls it must not panic, block or corrupt what is stored"],
        facets: vec![
            Facet { name: "order", rule: "two or three threads with up to four calls each on shared clients, stores, the registry, the snapshot and files, run several times; results and the final state must be those of a sequential order that respects real time; non-trivial = calls overlapped in a quarter of the runs", cases: (1500, 40000), batch: 10, racy: true, strategy: small, run: run_small }.boxed(),
            Facet { name: "cut", rule: "up to four threads with long histories on places of their own and one shared record, beside commits and a client that comes and goes; every result is known, every committed file must be a state between two calls of each thread; non-trivial = at least ten calls per round", cases: (800, 30000), batch: 5, racy: true, strategy: long, run: run_long }.boxed(),
            Facet { name: "hammer", rule: "hundreds of calls by up to five threads on one thing: the keys of a store, the first records of new vaults, calls of which one may succeed, a record beside changes to its vault; non-trivial = at least a hundred calls", cases: (160, 6000), batch: 4, racy: true, strategy: ham, run: run_ham }.boxed(),
            Facet { name: "sync", rule: "synchronisations of clients and vaults beside other calls; the state must stay readable, hold only values that were written, and go on working; non-trivial = a synchronisation succeeded", cases: (600, 20000), batch: 5, racy: true, strategy: syncs, run: run_syncs }.boxed(),
        ],
        findings: vec![],
    }])
}

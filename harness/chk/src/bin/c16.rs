//! C16: software transactions (stm::stm).
use std::{
    collections::{BTreeMap, HashSet},
    panic::AssertUnwindSafe,
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Barrier, Condvar, Mutex,
    },
};
use stm::stm::{
    error::TxError,
    shared_value::SharedValue::{self, *},
    stm::Stm,
    transaction::Transaction,
    tvar::TVar,
};
use vh::{ensure, ensure_eq, fail, prelude::*, Facet, Out, Property};

// ---------------------------------------------------------------------------------------------
// values: every kind of shared value carries one number

fn enc(kind: u8, n: u64) -> SharedValue {
    match kind % 5 {
        0 => SharedUsize(n as usize),
        1 => SharedString(format!("t{n}")),
        2 => SharedHashSetOfString([format!("t{n}"), "x".into()].into()),
        3 => SharedVectorOfString(vec!["x".into(), format!("t{n}")]),
        _ => SharedVectorOfUsize(vec![n as usize; 1 + (n % 5) as usize]),
    }
}
fn num(s: &str) -> Option<u64> {
    s.strip_prefix('t')?.parse().ok()
}
fn of_set(s: &HashSet<String>) -> Option<u64> {
    if s.len() != 2 || !s.contains("x") {
        return None;
    }
    s.iter().find(|x| *x != "x").and_then(|x| num(x))
}
fn of_vec(s: &[usize]) -> Option<u64> {
    let n = *s.first()? as u64;
    (s.len() == 1 + (n % 5) as usize && s.iter().all(|x| *x as u64 == n)).then_some(n)
}
const BAD: u64 = u64::MAX;
/// Loads a variable of a kind; a value that nobody wrote comes out as BAD.
fn load(tx: &mut Transaction, kind: u8, v: &TVar) -> Result<u64, TxError> {
    Ok(match kind % 5 {
        0 => Some(tx.load::<usize>(v)? as u64),
        1 => num(&tx.load::<String>(v)?),
        2 => of_set(&tx.load::<HashSet<String>>(v)?),
        3 => {
            let s = tx.load::<Vec<String>>(v)?;
            (s.len() == 2 && s[0] == "x").then(|| num(&s[1])).flatten()
        }
        _ => of_vec(&tx.load::<Vec<usize>>(v)?),
    }
    .unwrap_or(BAD))
}
fn load_wrong(tx: &mut Transaction, kind: u8, v: &TVar) -> Result<(), TxError> {
    match kind % 5 {
        0 => tx.load::<String>(v).map(drop),
        1 => tx.load::<Vec<String>>(v).map(drop),
        2 => tx.load::<usize>(v).map(drop),
        3 => tx.load::<Vec<usize>>(v).map(drop),
        _ => tx.load::<HashSet<String>>(v).map(drop),
    }
}
fn peek(kind: u8, v: &TVar) -> Result<u64, TxError> {
    Ok(match kind % 5 {
        0 => Some(v.try_get_data::<usize>()? as u64),
        1 => num(&v.try_get_data::<String>()?),
        2 => of_set(&v.try_get_data::<HashSet<String>>()?),
        3 => v.try_get_data::<Vec<String>>()?.get(1).and_then(|s| num(s)),
        _ => of_vec(&v.try_get_data::<Vec<usize>>()?),
    }
    .unwrap_or(BAD))
}
fn take(kind: u8, v: TVar) -> Result<u64, TVar> {
    Ok(match kind % 5 {
        0 => Some(v.take::<usize>()? as u64),
        1 => num(&v.take::<String>()?),
        2 => of_set(&v.take::<HashSet<String>>()?),
        3 => v.take::<Vec<String>>()?.get(1).and_then(|s| num(s)),
        _ => of_vec(&v.take::<Vec<usize>>()?),
    }
    .unwrap_or(BAD))
}
/// What the variables hold at the end, seen in three ways.
fn finals(stm: &Stm, vars: Vec<TVar>, kinds: &[u8]) -> vh::R<Vec<u64>> {
    let mut out = vec![];
    for (i, v) in vars.into_iter().enumerate() {
        let k = kinds[i];
        let a = peek(k, &v).map_err(|e| vh::Failure::new("final", format!("variable {i} cannot be read at the end: {e}")))?;
        let b = stm.read_only(|tx| load(tx, k, &v)).map(|r| r.res);
        ensure!(b == Ok(a), "final", "variable {i} holds {a}, a transaction reads {b:?}");
        let w = v.clone();
        let v = match take(k, v) {
            Err(v) => v,
            Ok(_) => fail!("take", "a variable with another handle was taken"),
        };
        ensure!(v == w, "take", "a refused take returned another variable");
        drop(w);
        match take(k, v) {
            Ok(c) => ensure_eq!(c, a, "take", "taking variable {i}"),
            Err(_) => fail!("take", "the last handle of variable {i} could not be taken"),
        }
        out.push(a);
    }
    Ok(out)
}

// ---------------------------------------------------------------------------------------------
// committed transactions and serial orders

#[derive(Clone, Debug, Default)]
struct Done {
    name: String,
    start: u64,
    end: u64,
    reads: Vec<(usize, u64)>,
    writes: BTreeMap<usize, u64>,
    id: usize,
}
/// Is there an order of the transactions, in line with real time, that explains all reads and the end?
fn serial(done: &[Done], init: &[u64], end: &[u64]) -> bool {
    fn go(done: &[Done], mask: u32, state: &[u64], end: &[u64], seen: &mut HashSet<(u32, Vec<u64>)>) -> bool {
        if mask as usize == (1usize << done.len()) - 1 {
            return state == end;
        }
        if !seen.insert((mask, state.to_vec())) {
            return false;
        }
        for (i, d) in done.iter().enumerate() {
            if mask >> i & 1 == 1 || done.iter().enumerate().any(|(j, o)| mask >> j & 1 == 0 && j != i && o.end < d.start) {
                continue;
            }
            if d.reads.iter().any(|(v, n)| state[*v] != *n) {
                continue;
            }
            let mut next = state.to_vec();
            d.writes.iter().for_each(|(v, n)| next[*v] = *n);
            if go(done, mask | 1 << i, &next, end, seen) {
                return true;
            }
        }
        false
    }
    go(done, 0, init, end, &mut HashSet::new())
}

// ---------------------------------------------------------------------------------------------
// stepped: threads take turns by a generated schedule

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    Load(u8),
    Store(u8),
    /// Load and store
    Update(u8),
    Wrong(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Txn {
    read_only: bool,
    ops: Vec<Op>,
    /// The first attempts end in an error after so many operations
    fails: Vec<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kinds: Vec<u8>,
    threads: Vec<Vec<Txn>>,
    schedule: Vec<u8>,
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![6 => (0u8..4).prop_map(Op::Load), 4 => (0u8..4).prop_map(Op::Store), 4 => (0u8..4).prop_map(Op::Update), 1 => (0u8..4).prop_map(Op::Wrong)]
}
fn txn() -> impl Strategy<Value = Txn> {
    (prop::bool::weighted(0.2), prop::collection::vec(op(), 0..6), prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec(0u8..6, 1..3)])
        .prop_map(|(read_only, ops, fails)| Txn { read_only, ops, fails })
}
fn case(_: Tier) -> BoxedStrategy<Case> {
    (prop::collection::vec(0u8..5, 1..5), prop::collection::vec(prop::collection::vec(txn(), 1..5), 1..5), prop::collection::vec(any::<u8>(), 0..80))
        .prop_map(|(kinds, threads, schedule)| Case { kinds, threads, schedule })
        .boxed()
}

struct Turns {
    inner: Mutex<TurnState>,
    cv: Condvar,
    n: usize,
}
#[derive(Default)]
struct TurnState {
    waiting: Vec<usize>,
    live: usize,
    turn: Option<usize>,
    step: u64,
    schedule: Vec<u8>,
    switches: usize,
    last: Option<usize>,
}
impl TurnState {
    fn pick(&mut self) {
        if self.live == 0 || self.waiting.len() < self.live {
            return;
        }
        self.waiting.sort_unstable();
        // when the schedule has run out, one thread goes on to its end
        let at = match self.schedule.get(self.step as usize) {
            Some(s) => *s as usize % self.waiting.len(),
            None => 0,
        };
        let t = self.waiting.remove(at);
        if self.last.is_some_and(|l| l != t) {
            self.switches += 1;
        }
        self.last = Some(t);
        self.step += 1;
        self.turn = Some(t);
    }
}
impl Turns {
    fn new(n: usize, schedule: Vec<u8>) -> Self {
        Turns { inner: Mutex::new(TurnState { live: n, schedule, ..Default::default() }), cv: Condvar::new(), n }
    }
    /// Gives the turn away and waits for it; returns the number of the step that begins.
    fn next(&self, me: usize) -> u64 {
        let mut g = self.inner.lock().unwrap();
        g.turn = None;
        g.waiting.push(me);
        g.pick();
        self.cv.notify_all();
        while g.turn != Some(me) {
            g = self.cv.wait(g).unwrap();
        }
        g.step
    }
    fn step(&self) -> u64 {
        self.inner.lock().unwrap().step
    }
    fn end(&self, me: usize) {
        let mut g = self.inner.lock().unwrap();
        let _ = (me, self.n);
        g.turn = None;
        g.live -= 1;
        g.pick();
        self.cv.notify_all();
    }
}
struct Ender<'a>(&'a Turns, usize);
impl Drop for Ender<'_> {
    fn drop(&mut self) {
        self.0.end(self.1)
    }
}

#[derive(Default)]
struct Attempt {
    tries: usize,
    reads: Vec<(usize, u64)>,
    writes: BTreeMap<usize, u64>,
    bad: Option<String>,
}

fn run_stepped(c: &Case) -> vh::R<Out> {
    let stm = Stm::default();
    let nv = c.kinds.len();
    let vars: Vec<TVar> = c.kinds.iter().enumerate().map(|(i, k)| stm.create(enc(*k, i as u64))).collect();
    let turns = Turns::new(c.threads.len(), c.schedule.clone());
    let token = AtomicU64::new(1000);
    let out: Mutex<Vec<Done>> = Mutex::new(vec![]);
    let errs: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let attempts = AtomicU64::new(0);
    let planned: u64 = c.threads.iter().flatten().map(|t| 1 + t.fails.len() as u64).sum();
    std::thread::scope(|s| {
        for (ti, txs) in c.threads.iter().enumerate() {
            let (stm, vars, turns, token, out, errs, attempts) = (stm.clone(), &vars, &turns, &token, &out, &errs, &attempts);
            s.spawn(move || {
                let _end = Ender(turns, ti);
                let r = vh::no_panic(AssertUnwindSafe(|| {
                    for (xi, t) in txs.iter().enumerate() {
                        let start = turns.next(ti);
                        let at = Mutex::new(Attempt::default());
                        let body = |tx: &mut Transaction| -> Result<u64, TxError> {
                            let mut a = at.lock().unwrap();
                            a.tries += 1;
                            attempts.fetch_add(1, SeqCst);
                            a.reads.clear();
                            a.writes.clear();
                            let stop = t.fails.get(a.tries - 1).copied();
                            for (oi, o) in t.ops.iter().enumerate() {
                                if stop == Some(oi as u8) {
                                    return Err(TxError::Failed);
                                }
                                turns.next(ti);
                                let (v, rd, wr) = match *o {
                                    Op::Load(v) => (v, true, false),
                                    Op::Store(v) => (v, t.read_only, !t.read_only),
                                    Op::Update(v) => (v, true, !t.read_only),
                                    Op::Wrong(v) => {
                                        let v = v as usize % nv;
                                        if let Ok(()) = load_wrong(tx, c.kinds[v], &vars[v]) {
                                            a.bad = Some("a value was loaded as another type".into());
                                        }
                                        continue;
                                    }
                                };
                                let v = v as usize % nv;
                                if rd {
                                    let n = load(tx, c.kinds[v], &vars[v])?;
                                    match a.writes.get(&v) {
                                        Some(w) if *w != n => a.bad = Some(format!("wrote {w} to variable {v}, reads {n} in the same transaction")),
                                        Some(_) => {}
                                        None => a.reads.push((v, n)),
                                    }
                                }
                                if wr {
                                    let n = token.fetch_add(1, SeqCst);
                                    tx.store(&vars[v], enc(c.kinds[v], n))?;
                                    a.writes.insert(v, n);
                                }
                            }
                            if stop.is_some() {
                                return Err(TxError::Failed);
                            }
                            drop(a);
                            turns.next(ti);
                            Ok(token.fetch_add(1, SeqCst))
                        };
                        let r = if t.read_only { stm.read_only(body) } else { stm.read_write(body) };
                        let a = at.into_inner().unwrap();
                        let name = format!("thread {ti} transaction {xi}");
                        match r {
                            Err(e) => errs.lock().unwrap().push(("returns".into(), format!("{name} returned the error {e}"))),
                            Ok(r) => {
                                if r.res != token.load(SeqCst) - 1 {
                                    errs.lock().unwrap().push(("result".into(), format!("{name} returned the result of another attempt")));
                                }
                                if let Some(b) = a.bad {
                                    errs.lock().unwrap().push(("own-writes".into(), format!("{name}: {b}")));
                                }
                                out.lock().unwrap().push(Done { name, start, end: turns.step(), reads: a.reads, writes: a.writes, id: r.tx_id });
                            }
                        }
                    }
                }));
                if let Err(e) = r {
                    errs.lock().unwrap().push(("panic".into(), e));
                }
            });
        }
    });
    if let Some((sig, e)) = errs.into_inner().unwrap().into_iter().next() {
        fail!(sig, "{e}");
    }
    let done = out.into_inner().unwrap();
    let ids: HashSet<usize> = done.iter().map(|d| d.id).collect();
    ensure_eq!(ids.len(), done.len(), "ids", "transactions share an identifier");
    let end = finals(&stm, vars, &c.kinds)?;
    let init: Vec<u64> = (0..nv as u64).collect();
    if !serial(&done, &init, &end) {
        let mut d = done.clone();
        d.sort_by_key(|d| d.end);
        let text: Vec<String> = d.iter().map(|d| format!("{} [{}..{}] reads {:?} writes {:?}", d.name, d.start, d.end, d.reads, d.writes)).collect();
        fail!("serial", "no serial order explains the reads and the end {end:?}: {}", text.join("; "));
    }
    let attempts = attempts.into_inner();
    if c.threads.len() == 1 {
        ensure_eq!(attempts, planned, "uncontended", "attempts of transactions that nobody disturbs");
    }
    let switches = turns.inner.lock().unwrap().switches;
    let writers = done.iter().filter(|d| !d.writes.is_empty()).count();
    Ok(Out::new(switches > 1 && writers > 1)
        .tag(format!("{} threads", c.threads.len()))
        .tag_if(attempts > planned, "conflict")
        .tag_if(c.threads.iter().flatten().any(|t| !t.fails.is_empty()), "failing attempts")
        .tag_if(c.threads.iter().flatten().any(|t| t.read_only && !t.ops.is_empty()), "read-only"))
}

// ---------------------------------------------------------------------------------------------
// racing: free-running threads; every write raises the number in a variable by one, so that the order of
// the writes to a variable is known

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RTx {
    read_only: bool,
    /// variable, what to do: 0 load, 1 raise, 2 raise through an intermediate value; pause before
    ops: Vec<(u8, u8, u8)>,
    fails: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Race {
    kinds: Vec<u8>,
    threads: Vec<Vec<RTx>>,
    rounds: u16,
    /// length of the stops put in at arbitrary points
    jitter: u16,
}
fn race(_: Tier) -> BoxedStrategy<Race> {
    let t = |n: usize| {
        (prop::bool::weighted(0.2), prop::collection::vec((0u8..5, 0u8..3, prop_oneof![3 => Just(0u8), 1 => 1u8..4]), 1..=n), prop_oneof![6 => Just(0u8), 1 => 1u8..3])
            .prop_map(|(read_only, ops, fails)| RTx { read_only, ops, fails })
    };
    let prog = move |n: usize, m: usize| prop::collection::vec(prop::collection::vec(t(n), 1..m), 2..8);
    // few variables, all raised together, and transactions that only read them
    let pair = (prop::collection::vec(any::<bool>(), 1..4), 1u8..4, prop::collection::vec(any::<u8>(), 3)).prop_map(|(readers, nv, order)| {
        let ops = |o: u8, w: u8| (0..nv).map(|i| if o % 2 == 0 { i } else { nv - 1 - i }).map(|v| (v, w, 0)).collect::<Vec<_>>();
        let mut t = vec![vec![RTx { read_only: false, ops: ops(order[0], 1), fails: 0 }]];
        t.extend(readers.iter().enumerate().map(|(i, ro)| vec![RTx { read_only: *ro, ops: ops(order[i % 3], 0), fails: 0 }]));
        t
    });
    // one thread that raises one variable after the other, each in a transaction of its own, and transactions that
    // only read them: nobody waits for a lock, and a reader sees states that differ in a single variable
    let single = (2u8..4, prop::collection::vec((any::<bool>(), any::<bool>()), 1..4), prop_oneof![Just(3u8), 0u8..4]).prop_map(|(nv, readers, p)| {
        let mut t = vec![(0..nv).map(|v| RTx { read_only: false, ops: vec![(v, 1, p)], fails: 0 }).collect::<Vec<_>>()];
        t.extend(readers.iter().map(|(rev, ro)| {
            let ops = (0..nv).map(|i| (if *rev { nv - 1 - i } else { i }, 0, 0)).collect();
            vec![RTx { read_only: *ro, ops, fails: 0 }]
        }));
        t
    });
    (
        prop::collection::vec(0u8..5, 1..5),
        prop_oneof![
            (prog(1, 5).boxed(), 1u16..40, prop_oneof![1 => Just(0u16), 2 => 2u16..30]),
            (prog(4, 4).boxed(), 1u16..8, prop_oneof![1 => Just(0u16), 2 => 2u16..30]),
            (pair.boxed(), 100u16..3000, prop_oneof![1 => Just(0u16), 2 => 2u16..30]),
            (single.boxed(), 500u16..5000, prop_oneof![1 => 2u16..30, 2 => 30u16..600]),
        ],
    )
        .prop_map(|(kinds, (threads, rounds, jitter))| Race { kinds, threads, rounds, jitter })
        .boxed()
}
const JUNK: u64 = 1 << 40;

fn pause(p: u8) {
    match p {
        0 => {}
        1 => std::thread::yield_now(),
        2 => (0..200).for_each(|_| std::hint::spin_loop()),
        _ => std::thread::sleep(std::time::Duration::from_micros(20)),
    }
}

fn run_race(c: &Race) -> vh::R<Out> {
    let stm = Stm::default();
    let nv = c.kinds.len();
    let vars: Vec<TVar> = c.kinds.iter().map(|k| stm.create(enc(*k, 0))).collect();
    let clock = AtomicU64::new(0);
    let again = AtomicU64::new(0);
    let bar = Barrier::new(c.threads.len());
    let (since, limit) = (std::time::Instant::now(), std::time::Duration::from_millis(1500));
    let res: Vec<Result<Vec<Done>, (String, String)>> = chk::jitter::jitter(c.jitter as u32, 77 + c.rounds as u64, |jit| std::thread::scope(|s| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .enumerate()
            .map(|(ti, txs)| {
                let (stm, vars, clock, again, bar) = (stm.clone(), &vars, &clock, &again, &bar);
                s.spawn(move || {
                    bar.wait();
                    let _part = jit.join();
                    let mut done = vec![];
                    let r = vh::no_panic(AssertUnwindSafe(|| {
                        for round in 0..c.rounds {
                            // transactions that wait for each other's locks take a second each
                            if since.elapsed() > limit {
                                break;
                            }
                            for (xi, t) in txs.iter().enumerate() {
                                let at = Mutex::new(Attempt::default());
                                let start = clock.fetch_add(1, SeqCst);
                                let body = |tx: &mut Transaction| -> Result<(), TxError> {
                                    let mut a = at.lock().unwrap();
                                    a.tries += 1;
                                    a.reads.clear();
                                    a.writes.clear();
                                    for (v, what, p) in &t.ops {
                                        pause(*p);
                                        let v = *v as usize % nv;
                                        let n = load(tx, c.kinds[v], &vars[v])?;
                                        match a.writes.get(&v) {
                                            Some(w) if *w != n => a.bad = Some(format!("wrote {w} to variable {v}, reads {n} in the same transaction")),
                                            Some(_) => {}
                                            None => a.reads.push((v, n)),
                                        }
                                        if *what == 0 || t.read_only {
                                            continue;
                                        }
                                        let base = a.reads.iter().find(|(w, _)| *w == v).map_or(n, |x| x.1);
                                        if *what == 2 {
                                            tx.store(&vars[v], enc(c.kinds[v], JUNK + ti as u64))?;
                                            if load(tx, c.kinds[v], &vars[v])? != JUNK + ti as u64 {
                                                a.bad = Some(format!("an intermediate value of variable {v} is not read back"));
                                            }
                                        }
                                        tx.store(&vars[v], enc(c.kinds[v], base.wrapping_add(1)))?;
                                        a.writes.insert(v, base.wrapping_add(1));
                                    }
                                    if a.tries <= t.fails as usize {
                                        return Err(TxError::Failed);
                                    }
                                    Ok(())
                                };
                                let r = if t.read_only { stm.read_only(body) } else { stm.read_write(body) };
                                let end = clock.fetch_add(1, SeqCst);
                                let a = at.into_inner().unwrap();
                                again.fetch_add(a.tries as u64 - 1 - t.fails as u64, SeqCst);
                                let name = format!("thread {ti} round {round} transaction {xi}");
                                match r {
                                    Err(e) => return Err(("returns".to_string(), format!("{name} returned the error {e}"))),
                                    Ok(r) => {
                                        if let Some(b) = a.bad {
                                            return Err(("own-writes".into(), format!("{name}: {b}")));
                                        }
                                        done.push(Done { name, start, end, reads: a.reads, writes: a.writes, id: r.tx_id });
                                    }
                                }
                            }
                        }
                        Ok(())
                    }));
                    match r {
                        Ok(Ok(())) => Ok(done),
                        Ok(Err(e)) => Err(e),
                        Err(e) => Err(("panic".into(), e)),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(("panic".into(), "a thread ended".into())))).collect()
    }));
    let mut done: Vec<Done> = vec![];
    for r in res {
        match r {
            Ok(d) => done.extend(d),
            Err((sig, e)) => fail!(sig, "{e}"),
        }
    }
    let ids: HashSet<usize> = done.iter().map(|d| d.id).collect();
    ensure_eq!(ids.len(), done.len(), "ids", "transactions share an identifier");
    let end = finals(&stm, vars, &c.kinds)?;
    // the writer of every value of every variable
    let mut writer: Vec<BTreeMap<u64, usize>> = vec![BTreeMap::new(); nv];
    for (i, d) in done.iter().enumerate() {
        for (v, n) in &d.writes {
            if let Some(o) = writer[*v].insert(*n, i) {
                fail!("lost-update", "{} and {} both raised variable {v} to {n}", done[o].name, d.name);
            }
        }
    }
    for v in 0..nv {
        ensure_eq!(end[v], writer[v].len() as u64, "lost-update", "variable {v} after {} updates", writer[v].len());
        ensure!(writer[v].keys().copied().eq(1..=end[v]), "lost-update", "the updates of variable {v} are not numbered in a row");
    }
    let n = done.len();
    let mut next: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, d) in done.iter().enumerate() {
        for (v, r) in &d.reads {
            if *r > 0 {
                match writer[*v].get(r) {
                    None => fail!("dirty-read", "{} read {r} from variable {v}, which no committed transaction wrote", d.name),
                    Some(w) if *w != i => next[*w].push(i),
                    _ => {}
                }
            }
            match writer[*v].get(&(r + 1)) {
                Some(w) if *w != i => next[i].push(*w),
                _ => {}
            }
        }
    }
    // real time: a chain of nodes, one for each end of a transaction
    let mut by_end: Vec<usize> = (0..n).collect();
    by_end.sort_by_key(|i| done[*i].end);
    next.resize(2 * n, vec![]);
    for (k, i) in by_end.iter().enumerate() {
        next[*i].push(n + k);
        if k + 1 < n {
            next[n + k].push(n + k + 1);
        }
    }
    for (i, d) in done.iter().enumerate() {
        let k = by_end.partition_point(|j| done[*j].end < d.start);
        if k > 0 {
            next[n + k - 1].push(i);
        }
    }
    // an order in which every dependency points forward
    let mut deg = vec![0usize; 2 * n];
    next.iter().flatten().for_each(|j| deg[*j] += 1);
    let mut ready: Vec<usize> = (0..2 * n).filter(|i| deg[*i] == 0).collect();
    let mut left = 2 * n;
    while let Some(i) = ready.pop() {
        left -= 1;
        for j in &next[i] {
            deg[*j] -= 1;
            if deg[*j] == 0 {
                ready.push(*j);
            }
        }
    }
    if left > 0 {
        let some: Vec<String> = (0..n).filter(|i| deg[*i] > 0).take(6).map(|i| format!("{} reads {:?} writes {:?}", done[i].name, done[i].reads, done[i].writes)).collect();
        fail!("serial", "no serial order of the committed transactions explains their reads: {}", some.join("; "));
    }
    let conflict = again.into_inner() > 0;
    Ok(Out::new(conflict).tag(format!("{} threads", c.threads.len())).tag_if(conflict, "conflict").tag_if(c.jitter > 0, "stops"))
}

// ---------------------------------------------------------------------------------------------
// many variables

/// Every transaction raises the variables it names by one, so that the end is known whatever the order.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    vars: u16,
    threads: u8,
    txs: u8,
    /// variables per transaction, at most
    width: u16,
    seed: u32,
}
fn wide(_: Tier) -> BoxedStrategy<Wide> {
    (prop_oneof![1 => 2u16..40, 2 => 200u16..700], prop_oneof![2 => Just(1u8), 1 => 2u8..5], 1u8..40, prop_oneof![1 => 1u16..4, 1 => 4u16..700], any::<u32>())
        // transactions that lock many variables in different orders wait for each other for a second
        .prop_map(|(vars, threads, txs, width, seed)| Wide { vars, threads, txs: if threads > 1 && width > 3 { txs.min(3) } else { txs }, width, seed })
        .boxed()
}
fn wide_run(c: &Wide) -> vh::R<Out> {
    let stm = Stm::default();
    let vars: Vec<TVar> = (0..c.vars).map(|i| stm.create(SharedUsize(1000 * i as usize))).collect();
    let plan = |t: u8, x: u8| -> Vec<usize> {
        let mut g = chk::large::Rng(c.seed as u64 ^ (t as u64) << 40 ^ (x as u64) << 48);
        let n = 1 + g.below(c.width as u64);
        let mut v: Vec<usize> = (0..n).map(|_| g.below(c.vars as u64) as usize).collect();
        v.sort();
        v.dedup();
        v
    };
    let errs: Vec<Option<(String, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..c.threads)
            .map(|t| {
                let (stm, vars, plan) = (stm.clone(), &vars, &plan);
                s.spawn(move || {
                    vh::no_panic(AssertUnwindSafe(|| {
                        for x in 0..c.txs {
                            let p = plan(t, x);
                            let r = stm.read_write(|tx| {
                                let mut got = vec![];
                                for v in &p {
                                    let n = tx.load::<usize>(&vars[*v])?;
                                    tx.store(&vars[*v], SharedUsize(n + 1))?;
                                    got.push(n);
                                }
                                for (v, n) in p.iter().zip(&got) {
                                    if tx.load::<usize>(&vars[*v])? != n + 1 {
                                        return Ok(Some(format!("variable {v}: wrote {}, reads another value in the same transaction", n + 1)));
                                    }
                                }
                                Ok(None)
                            });
                            match r {
                                Ok(r) if r.res.is_none() => {}
                                Ok(r) => return Some(("own-writes".to_string(), r.res.unwrap())),
                                Err(e) => return Some(("returns".into(), format!("a transaction returned the error {e}"))),
                            }
                        }
                        None
                    }))
                    .unwrap_or_else(|e| Some(("panic".into(), e)))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some(("panic".into(), "a thread ended".into())))).collect()
    });
    if let Some((sig, e)) = errs.into_iter().flatten().next() {
        fail!(sig, "{e} ({c:?})")
    }
    let mut want: Vec<usize> = (0..c.vars as usize).map(|i| 1000 * i).collect();
    let mut most = 0;
    for t in 0..c.threads {
        for x in 0..c.txs {
            let p = plan(t, x);
            most = most.max(p.len());
            p.iter().for_each(|v| want[*v] += 1);
        }
    }
    let all = stm.read_only(|tx| vars.iter().map(|v| tx.load::<usize>(v)).collect::<Result<Vec<_>, _>>()).map_err(|e| vh::Failure::new("returns", e.to_string()))?.res;
    for (i, (a, b)) in all.iter().zip(&want).enumerate() {
        ensure_eq!(a, b, "lost-update", "variable {i} at the end of {c:?}");
    }
    Ok(Out::new(c.txs > 1 && most > 1).tag_if(most > 32, "more than 32 variables in one transaction").tag_if(c.vars > 256, "more than 256 variables").tag(format!("{} threads", c.threads)))
}

// ---------------------------------------------------------------------------------------------
// more threads than processors

/// Threads that count as fast as they can on a variable of their own, beside threads that count slowly on few shared
/// ones; and readers of pairs that are raised together. Threads lose the processor at arbitrary points.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    own: u8,
    /// threads that count on a shared variable: which one, and how long they wait between reading and writing
    shared: Vec<(u8, u8)>,
    millis: u16,
    seed: u32,
}
fn crowd(_: Tier) -> BoxedStrategy<Crowd> {
    (4u8..16, prop::collection::vec((0u8..2, 0u8..4), 0..9), prop_oneof![3 => 30u16..150, 1 => 150u16..400], any::<u32>())
        .prop_map(|(own, shared, millis, seed)| Crowd { own, shared, millis, seed })
        .boxed()
}
fn crowd_run(c: &Crowd) -> vh::R<Out> {
    let stm = Stm::default();
    let n = c.own as usize + c.shared.len();
    let vars: Vec<TVar> = (0..c.own as usize + 2).map(|_| stm.create(SharedUsize(0))).collect();
    let (bar, stop) = (Barrier::new(n), std::sync::atomic::AtomicBool::new(false));
    let res: Vec<Result<(usize, Vec<usize>), (String, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (stm, vars, bar, stop) = (stm.clone(), &vars, &bar, &stop);
                let (v, p) = if t < c.own as usize { (t, 0) } else { let (v, p) = c.shared[t - c.own as usize]; (c.own as usize + v as usize % 2, p + 1) };
                s.spawn(move || {
                    bar.wait();
                    let mut ids = vec![];
                    let mut last = None;
                    let stopped = std::cell::Cell::new(None::<std::time::Instant>);
                    let r = vh::no_panic(AssertUnwindSafe(|| {
                        while !stop.load(SeqCst) {
                            let r = stm.read_write(|tx| {
                                // the last transactions have the processors for themselves
                                if stop.load(SeqCst) {
                                    let t = stopped.get().unwrap_or_else(std::time::Instant::now);
                                    stopped.set(Some(t));
                                    assert!(t.elapsed().as_secs() < 20, "no-termination: the transaction is attempted again and again");
                                }
                                let a: usize = tx.load(&vars[v])?;
                                match p {
                                    0 => {}
                                    1 => std::thread::yield_now(),
                                    p => (0..(p as u32) * 100).for_each(|_| std::hint::spin_loop()),
                                }
                                tx.store(&vars[v], SharedUsize(a + 1))?;
                                Ok(a)
                            });
                            match r {
                                Ok(r) => {
                                    if last.is_some_and(|l| if v < c.own as usize { r.res != l + 1 } else { r.res <= l }) {
                                        return Err(("lost-update".to_string(), format!("thread {t} reads {} after its commit over {last:?}", r.res)));
                                    }
                                    last = Some(r.res);
                                    ids.push(r.tx_id);
                                }
                                Err(e) => return Err(("returns".to_string(), format!("a transaction of thread {t} returned the error {e}"))),
                            }
                        }
                        Ok(())
                    }));
                    stop.store(true, SeqCst);
                    match r {
                        Ok(Ok(())) => Ok((v, ids)),
                        Ok(Err(e)) => Err(e),
                        Err(e) if e.contains("no-termination") => Err(("no-termination".into(), e)),
                        Err(e) => Err(("panic".into(), e)),
                    }
                })
            })
            .collect();
        let end = std::time::Instant::now() + std::time::Duration::from_millis(c.millis as u64);
        while std::time::Instant::now() < end && !stop.load(SeqCst) {
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        stop.store(true, SeqCst);
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(("panic".into(), "a thread ended".into())))).collect()
    });
    let mut want = vec![0; vars.len()];
    let mut ids = HashSet::new();
    let mut commits = 0;
    for r in res {
        match r {
            Ok((v, i)) => {
                want[v] += i.len();
                commits += i.len();
                ids.extend(i);
            }
            Err((sig, e)) => fail!(sig, "{e} ({c:?})"),
        }
    }
    ensure_eq!(ids.len(), commits, "ids", "identifiers of {commits} transactions");
    for (i, v) in vars.iter().enumerate() {
        let got = stm.read_only(|tx| tx.load::<usize>(v)).map_err(|e| vh::Failure::new("returns", e.to_string()))?.res;
        ensure_eq!(got, want[i], "lost-update", "variable {i} of {} at the end of {c:?}", vars.len());
    }
    Ok(Out::new(commits > 1000).tag_if(commits > 100_000, "more than 100000 commits").tag_if(c.shared.len() > 1, "shared variables"))
}

fn main() {
    vh::main(vec![Property {
        id: "C16",
        level: "exploration",
        assumptions: &["a read-only transaction is not given stores, which the interface drops without a report",
            "the transaction function passes errors of load and store on; one that swallows a load of the wrong type may go on",
            "in the racing facet schedules are those the machine produces; conflicts inside a commit are resolved by its lock time limit of one second"],
        facets: vec![
            Facet { name: "wide", rule: "up to four threads raise subsets of up to 700 variables, the end is known; non-trivial = several transactions of several variables", cases: (500, 10000), batch: 10, racy: true, strategy: wide, run: wide_run }.boxed(),
            Facet { name: "crowd", rule: "up to 24 threads count without a stop on variables of their own and on two shared ones, the end is known; non-trivial = more than 1000 commits", cases: (60, 2000), batch: 2, racy: true, strategy: crowd, run: crowd_run }.boxed(),
            Facet { name: "stepped", rule: "programs of up to four threads driven step by step through a generated schedule, with failing attempts and five kinds of values, explained by a search for a serial order; non-trivial = at least two switches between threads and two writing transactions", cases: (150000, 4000000), batch: 200, racy: false, strategy: case, run: run_stepped }.boxed(),
            Facet { name: "racing", rule: "free-running threads whose dependencies must form an order; non-trivial = a transaction was attempted again because of a conflict", cases: (600, 20000), batch: 4, racy: true, strategy: race, run: run_race }.boxed(),
        ],
        findings: vec![],
    }])
}

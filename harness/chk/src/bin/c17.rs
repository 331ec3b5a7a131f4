//! C17: read-log-update (stm::rlu) used in turn.
use std::{
    cell::Cell,
    collections::BTreeSet,
    panic::AssertUnwindSafe,
    sync::{Arc, Mutex},
};
use stm::rlu::{
    guard::{ReadGuard, WriteGuard},
    BusyBreaker, RLUObject, RLUStrategy, RLUVar, Read, RluContext, TransactionError, Write, RLU,
};
use vh::{ensure, ensure_eq, fail, prelude::*, Facet, Failure, Finding, Out, Property};

type V = Vec<u64>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// Read guard, kept or given back at once
    Get { v: u8, keep: bool },
    /// Write guard: written right away so many times, kept or given back at once
    Set { v: u8, writes: u8, keep: bool },
    /// Write through a kept guard
    Write { g: u8 },
    Release { g: u8 },
    /// The variable itself
    Raw { v: u8 },
    /// Another context, while this one is open
    Nest { tx: Tx },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tx {
    ops: Vec<Op>,
    /// so many attempts end in an error, with the kept guards still alive or not
    fails: u8,
    early: bool,
    thread: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// 0 abort, 1 retry, 2.. with breaker
    strategy: u8,
    object: bool,
    vars: u8,
    txs: Vec<Tx>,
}
fn leaf() -> impl Strategy<Value = Op> {
    let v = || prop_oneof![8 => 0u8..4, 1 => any::<u8>()];
    prop_oneof![
        4 => (v(), any::<bool>()).prop_map(|(v, keep)| Op::Get { v, keep }),
        5 => (v(), 0u8..4, any::<bool>()).prop_map(|(v, writes, keep)| Op::Set { v, writes, keep }),
        2 => any::<u8>().prop_map(|g| Op::Write { g }),
        3 => any::<u8>().prop_map(|g| Op::Release { g }),
        1 => v().prop_map(|v| Op::Raw { v }),
    ]
}
fn tx_of(op: BoxedStrategy<Op>, n: usize) -> impl Strategy<Value = Tx> {
    (prop::collection::vec(op, 0..n), prop_oneof![8 => Just(0u8), 1 => 1u8..4], any::<bool>(), prop::bool::weighted(0.2))
        .prop_map(|(ops, fails, early, thread)| Tx { ops, fails, early, thread })
}
fn case(_: Tier) -> BoxedStrategy<Case> {
    let inner = tx_of(leaf().boxed(), 8);
    let op1 = prop_oneof![8 => leaf(), 1 => inner.prop_map(|tx| Op::Nest { tx })].boxed();
    let mid = tx_of(op1, 8);
    let op2 = prop_oneof![8 => leaf(), 1 => mid.prop_map(|tx| Op::Nest { tx })].boxed();
    let long = tx_of(leaf().boxed(), 120);
    let vars = prop_oneof![8 => 1u8..5, 1 => 5u8..=255];
    (0u8..5, any::<bool>(), vars, prop::collection::vec(prop_oneof![12 => tx_of(op2, 20).boxed(), 1 => long.boxed()], 1..6))
        .prop_map(|(strategy, object, vars, txs)| Case { strategy, object, vars, txs })
        .boxed()
}
/// Many contexts one after the other, many variables, many guards of one context.
fn lots(_: Tier) -> BoxedStrategy<Case> {
    let any_leaf = || {
        prop_oneof![
            4 => (any::<u8>(), prop::bool::weighted(0.8)).prop_map(|(v, keep)| Op::Get { v, keep }),
            6 => (any::<u8>(), 1u8..3, prop::bool::weighted(0.8)).prop_map(|(v, writes, keep)| Op::Set { v, writes, keep }),
            1 => any::<u8>().prop_map(|g| Op::Write { g }),
            1 => any::<u8>().prop_map(|g| Op::Release { g }),
        ]
        .boxed()
    };
    let txs = prop_oneof![
        1 => prop::collection::vec(tx_of(leaf().boxed(), 4), 20..150),
        1 => prop::collection::vec(tx_of(any_leaf(), 300), 1..6),
        1 => prop::collection::vec(tx_of(any_leaf(), 12), 10..60),
    ];
    (0u8..5, any::<bool>(), prop_oneof![1 => 1u8..20, 2 => 20u8..=255], txs).prop_map(|(strategy, object, vars, txs)| Case { strategy, object, vars, txs }).boxed()
}

struct World {
    ctrl: RLU<V>,
    vars: Vec<RLUVar<V>>,
    strategy: u8,
    st: Mutex<State>,
}
struct State {
    value: Vec<V>,
    held: BTreeSet<usize>,
    token: u64,
    failure: Option<Failure>,
    released_with_others: bool,
    nested_writes: bool,
}
enum G<'a> {
    R(ReadGuard<'a, V>),
    W(WriteGuard<'a, V>, V),
}
impl World {
    fn fresh(&self) -> V {
        let mut s = self.st.lock().unwrap();
        s.token += 1;
        let n = s.token;
        vec![n; 1 + (n % 4) as usize]
    }
    fn value(&self, v: usize) -> V {
        self.st.lock().unwrap().value[v].clone()
    }
    fn free(&self, v: usize) -> bool {
        !self.st.lock().unwrap().held.contains(&v)
    }
    fn all(&self, when: &str) -> vh::R<()> {
        for v in 0..self.vars.len() {
            if self.free(v) {
                ensure_eq!(self.vars[v].get(), self.value(v), "value", "variable {v} {when}");
            }
        }
        Ok(())
    }
    fn release(&self, v: usize, g: G<'_>, others: usize, depth: usize) -> vh::R<()> {
        match g {
            G::R(g) => {
                ensure_eq!(*g, self.value(v), "read", "a read guard of variable {v} before it is given back");
                drop(g);
                self.st.lock().unwrap().held.remove(&v);
            }
            G::W(g, want) => {
                ensure_eq!(*g, want, "write", "a write guard of variable {v} before it is given back");
                drop(g);
                let mut s = self.st.lock().unwrap();
                s.held.remove(&v);
                s.value[v] = want;
                s.released_with_others |= others > 0;
                s.nested_writes |= depth > 0;
            }
        }
        self.all(&format!("after a guard of variable {v} was given back"))
    }
    /// The operations of one attempt
    fn body(&self, tx: &Tx, ctx: &RluContext<V>, depth: usize, failing: bool) -> vh::R<()> {
        let nv = self.vars.len();
        let mut kept: Vec<(usize, G<'_>)> = vec![];
        let r = (|| {
            for o in &tx.ops {
                match o {
                    Op::Get { v, keep } => {
                        let v = *v as usize % nv;
                        if !self.free(v) {
                            continue;
                        }
                        let g = ctx.get(&self.vars[v]).map_err(|e| Failure::new("get", format!("reading variable {v}: {e}")))?;
                        ensure_eq!(*g, self.value(v), "read", "a read guard of variable {v} at depth {depth}");
                        if *keep {
                            self.st.lock().unwrap().held.insert(v);
                            kept.push((v, G::R(g)));
                        }
                    }
                    Op::Set { v, writes, keep } => {
                        let v = *v as usize % nv;
                        if !self.free(v) {
                            continue;
                        }
                        let mut g = ctx.get_mut(&self.vars[v]).map_err(|e| Failure::new("get-mut", format!("writing variable {v}: {e}")))?;
                        let mut want = self.value(v);
                        ensure_eq!(*g, want, "read", "a write guard of variable {v} at depth {depth}");
                        for i in 0..*writes {
                            let n = self.fresh();
                            if i % 2 == 0 {
                                *g = n.clone();
                                want = n;
                            } else {
                                g.extend(n.iter());
                                want.extend(n);
                            }
                        }
                        self.st.lock().unwrap().held.insert(v);
                        if *keep {
                            kept.push((v, G::W(g, want)));
                        } else {
                            self.release(v, G::W(g, want), kept.len(), depth)?;
                        }
                    }
                    Op::Write { g } => {
                        let n = kept.len();
                        if n > 0 {
                            if let (_, G::W(g, want)) = &mut kept[*g as usize % n] {
                                *want = self.fresh();
                                **g = want.clone();
                            }
                        }
                    }
                    Op::Release { g } => {
                        if !kept.is_empty() {
                            let (v, g) = kept.remove(*g as usize % kept.len());
                            self.release(v, g, kept.len(), depth)?;
                        }
                    }
                    Op::Raw { v } => {
                        let v = *v as usize % nv;
                        if self.free(v) {
                            ensure_eq!(self.vars[v].get(), self.value(v), "value", "variable {v}");
                            let g = self.vars[v].try_inner().map_err(|e| Failure::new("inner", format!("try_inner of variable {v}: {e}")))?;
                            ensure_eq!(*g, self.value(v), "value", "try_inner of variable {v}");
                        }
                    }
                    Op::Nest { tx } => self.run(tx, depth + 1)?,
                }
            }
            Ok(())
        })();
        r?;
        while let Some((v, g)) = if tx.early { kept.pop() } else if kept.is_empty() { None } else { Some(kept.remove(0)) } {
            let _ = failing;
            self.release(v, g, kept.len(), depth)?;
        }
        Ok(())
    }
    /// One execute
    fn run(&self, tx: &Tx, depth: usize) -> vh::R<()> {
        let go = || -> vh::R<()> {
            let attempts = Cell::new(0usize);
            let failed: Cell<Option<Failure>> = Cell::new(None);
            let r = self.ctrl.execute(|ctx| {
                attempts.set(attempts.get() + 1);
                let failing = attempts.get() <= tx.fails as usize;
                let old = self.st.lock().unwrap().value.clone();
                if let Err(f) = self.body(tx, &ctx, depth, failing) {
                    failed.set(Some(f));
                    return Ok(());
                }
                if failing {
                    // whether the writes of a failed attempt stay is not judged, other values are
                    let mut s = self.st.lock().unwrap();
                    for v in 0..self.vars.len() {
                        if !s.held.contains(&v) {
                            let now = self.vars[v].get();
                            if now == old[v] {
                                s.value[v] = now;
                            } else if now != s.value[v] {
                                drop(s);
                                failed.set(Some(Failure::new("value", format!("variable {v} holds {now:?} after a failed attempt"))));
                                return Ok(());
                            }
                        }
                    }
                    return Err(TransactionError::Failed);
                }
                Ok(())
            });
            if let Some(f) = failed.take() {
                return Err(f);
            }
            let (n, k) = (attempts.get(), tx.fails as usize);
            match (self.strategy, &r) {
                (0, Err(TransactionError::Failed)) if k > 0 => ensure_eq!(n, 1, "strategy", "attempts"),
                (1, Ok(())) => ensure_eq!(n, k + 1, "strategy", "attempts"),
                (2.., Ok(())) => ensure_eq!(n, k + 1, "strategy", "attempts"),
                (2.., Err(TransactionError::Inner(_))) if k > 0 => ensure!(n <= k, "strategy", "gave up after {n} attempts, {k} of which failed"),
                (_, Ok(())) if k == 0 => ensure_eq!(n, 1, "strategy", "attempts"),
                (s, r) => fail!("strategy", "strategy {s}: {k} failing attempts, {n} made, result {r:?}"),
            }
            self.all("after a transaction")
        };
        if tx.thread {
            std::thread::scope(|s| s.spawn(|| vh::no_panic(AssertUnwindSafe(go))).join()).map_err(|_| Failure::new("panic", "thread".to_string()))?.map_err(|e| Failure::new("panic", e))?
        } else {
            go()
        }
    }
}

fn run(c: &Case) -> vh::R<Out> {
    let nv = c.vars as usize;
    let init: Vec<V> = (0..nv as u64).map(|i| vec![1000 + i]).collect();
    let strategy = match c.strategy {
        0 => RLUStrategy::Abort,
        1 => RLUStrategy::Retry,
        n => RLUStrategy::RetryWithBreaker(BusyBreaker::new(n as usize * 2)),
    };
    let (ctrl, vars, strategy): (RLU<V>, Vec<RLUVar<V>>, u8) = if c.object {
        let o = RLUObject::from(init[0].clone());
        let ctrl: RLU<V> = (*o.clone().ctrl()).clone();
        let mut vars = vec![(**o.var()).clone()];
        vars.extend(init[1..].iter().map(|v| ctrl.create(v.clone())));
        (ctrl, vars, 1)
    } else {
        let ctrl = RLU::with_strategy(strategy);
        let vars = init.iter().map(|v| ctrl.create(v.clone())).collect();
        (ctrl, vars, c.strategy.min(2))
    };
    let w = World { ctrl, vars, strategy, st: Mutex::new(State { value: init, held: BTreeSet::new(), token: 0, failure: None, released_with_others: false, nested_writes: false }) };
    // retries wait 10 ms each
    for tx in &c.txs {
        match vh::no_panic(AssertUnwindSafe(|| w.run(tx, 0))) {
            Ok(r) => r?,
            Err(e) => fail!("panic", "{e}"),
        }
    }
    let s = w.st.into_inner().unwrap();
    let _ = s.failure;
    Ok(Out::new(s.token > 2)
        .tag(match strategy {
            0 => "abort",
            1 => "retry",
            _ => "breaker",
        })
        .tag_if(s.released_with_others, "written beside other guards")
        .tag_if(s.nested_writes, "written in a nested context"))
}

/// A read that begins while a write guard is alive takes the value's lock and waits; the write, given back
/// meanwhile, then cannot reach the variable, and the next write starts from the old value.
fn lost_write() -> vh::R<()> {
    let ctrl: RLU<V> = RLU::with_strategy(RLUStrategy::Retry);
    let var = Arc::new(ctrl.create(vec![1]));
    let _ = ctrl.execute(|c| {
        c.get_mut(&var)?.push(2);
        Ok(())
    });
    std::thread::scope(|s| {
        let _ = ctrl.execute(|c| {
            let mut w = c.get_mut(&var)?;
            let (ctrl, var) = (ctrl.clone(), var.clone());
            s.spawn(move || {
                ctrl.execute(|c| {
                    let _ = c.get(&var)?.len();
                    Ok(())
                })
            });
            std::thread::sleep(std::time::Duration::from_millis(200));
            w.push(3);
            Ok(())
        });
    });
    let _ = ctrl.execute(|c| {
        c.get_mut(&var)?.push(4);
        Ok(())
    });
    ensure_eq!(var.get(), vec![1, 2, 3, 4], "rlu-concurrent-read", "after three writes, one of them beside a read");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// the number of tries

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tries {
    max: u8,
    fails: u8,
    /// the error of the failing attempts
    err: u8,
    write: bool,
    default: bool,
}
fn tries(_: Tier) -> BoxedStrategy<Tries> {
    (0u8..15, 0u8..20, 0u8..3, any::<bool>(), prop::bool::weighted(0.1)).prop_map(|(max, fails, err, write, default)| Tries { max, fails, err, write, default }).boxed()
}
/// With `max` allowed trips the first `max` failures of a fresh controller must be followed by another try, and it
/// gives up in the end: after `max` or `max + 1` trips, as the documentation can be read either way.
fn tries_run(c: &Tries) -> vh::R<Out> {
    let (max, breaker) = if c.default { (7, BusyBreaker::default()) } else { (c.max as usize, BusyBreaker::new(c.max as usize)) };
    let k = c.fails as usize;
    let err = || match c.err {
        0 => TransactionError::Failed,
        1 => TransactionError::Inner("no".into()),
        _ => TransactionError::Abort,
    };
    let spins = |b: &BusyBreaker| (0..max + 10).take_while(|_| b.spin().is_ok()).count();
    let alone = breaker.clone();
    for what in ["fresh", "reset"] {
        let n = spins(&alone);
        ensure!(n == max || n == max + 1, "trips", "a {what} breaker of {max} trips lets {n} pass");
        ensure!(alone.spin().is_err(), "trips", "a breaker that has given up goes on");
        alone.reset();
    }
    let ctrl: RLU<V> = RLU::with_strategy(RLUStrategy::RetryWithBreaker(breaker));
    let var = ctrl.create(vec![1]);
    let n = Cell::new(0);
    let r = ctrl.execute(|x| {
        n.set(n.get() + 1);
        if n.get() <= k {
            return Err(err());
        }
        if c.write {
            x.get_mut(&var)?.push(2);
        }
        Ok(())
    });
    match &r {
        Ok(()) => {
            ensure_eq!(n.get(), k + 1, "strategy", "attempts of a closure that fails {k} times");
            ensure!(k <= max + 1, "strategy", "a breaker of {max} trips let {k} failures pass");
        }
        Err(e) => {
            ensure!(k > max, "strategy", "a breaker of {max} trips gave up after {} attempts of which {k} fail: {e}", n.get());
            ensure!(n.get() == max + 1 || n.get() == max + 2, "strategy", "a breaker of {max} trips gave up after {} attempts", n.get());
        }
    }
    let want: V = if r.is_ok() && c.write { vec![1, 2] } else { vec![1] };
    ensure_eq!(var.get(), want, "value", "after {} attempts", n.get());
    Ok(Out::new(k > 0).tag(if r.is_ok() { "succeeds" } else { "gives up" }).tag_if(k == max, "last certain try"))
}

fn main() {
    vh::main(vec![Property {
        id: "C17",
        level: "exploration",
        assumptions: &["contexts are used in turn, also from different threads, and no two guards of one variable are alive at the same time: the second one would wait for the first, and the documentation lists data races and deadlocks under concurrency as known flaws",
            "whether the writes of a failed attempt stay is not judged: transactions are documented as never rolled back"],
        facets: vec![
            Facet { name: "turns", rule: "histories of transactions with nested contexts, kept guards, failing attempts and three strategies, every guard and variable compared with a model after every step; non-trivial = at least three values written", cases: (30000, 1500000), batch: 100, racy: false, strategy: case, run }.boxed(),
            Facet { name: "lots", rule: "up to 150 contexts one after the other, up to 255 variables, up to 300 operations and guards in one context; non-trivial as in turns", cases: (800, 20000), batch: 10, racy: false, strategy: lots, run }.boxed(),
            Facet { name: "tries", rule: "a closure that fails a number of times under a breaker of a number of trips; non-trivial = it fails at least once", cases: (2000, 20000), batch: 100, racy: false, strategy: tries, run: tries_run }.boxed(),
        ],
        findings: vec![Finding { sig: "rlu-concurrent-read", run: lost_write }],
    }])
}

//! C10: failing procedures and chains are refused cleanly.
use chk::{procs::*, sh::*, *};
use std::collections::BTreeSet;
use vh::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// secrets present before
    init: Vec<(Loc, Pay)>,
    chains: Vec<Vec<Spec>>,
}

fn strategy(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Quick { 4 } else { 8 };
    (
        prop::collection::vec((loc(2, 4), key_pay()), 1..7),
        prop::collection::vec(
            prop_oneof![
                2 => prop::collection::vec(spec(2, 5, true), 1..7),
                // mostly valid procedures, then anything
                2 => (prop::collection::vec(mild(), 1..6), prop::option::of(spec(2, 5, true))).prop_map(|(mut v, s)| {
                    v.extend(s);
                    v
                }),
            ],
            1..n,
        ),
    )
        .prop_map(|(init, chains)| Case { init, chains })
        .boxed()
}

/// Long chains over many locations, mostly valid procedures.
fn long(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Quick { 90 } else { 400 };
    let w = || {
        prop_oneof![
            8 => ((0u32..40, 2u16..5000).prop_map(|(len, s)| Pay { len, s }), loc(NV, NR)).prop_map(|(p, o)| Spec::Write { p, o }),
            2 => (loc(NV, NR), loc(NV, NR)).prop_map(|(a, o)| Spec::Copy { a, o }),
            2 => (any::<bool>(), loc(NV, NR)).prop_map(|(x, o)| Spec::Gen { x, o }),
            1 => (hs(), small(), small(), 1u32..4, loc(NV, NR)).prop_map(|(h, pw, salt, n, o)| Spec::Pbkdf { h, pw, salt, n, o }),
        ]
    };
    let every: Vec<Spec> = (0..NV).flat_map(|v| (0..NR).map(move |r| Spec::Write { p: Pay { len: 32, s: 7 }, o: Loc { v, r } })).collect();
    let chain = (any::<bool>(), prop::collection::vec(w(), 5..n), prop::option::weighted(0.7, spec(2, 5, true))).prop_map(move |(all, v, s)| {
        // without secrets there is nothing to copy
        let mut c = if all { every.clone() } else { vec![] };
        c.extend(v.into_iter().filter(|s| all || !matches!(s, Spec::Copy { .. })));
        c.extend(s);
        c
    });
    (prop::collection::vec((loc(NV, NR), key_pay()), 1..12), prop::collection::vec(chain, 1..3)).prop_map(|(init, chains)| Case { init, chains }).boxed()
}

/// Procedures that rarely fail.
fn mild() -> BoxedStrategy<Spec> {
    let l = || loc(2, 5);
    prop_oneof![
        4 => (key_pay(), l()).prop_map(|(p, o)| Spec::Write { p, o }),
        1 => (any::<bool>(), l()).prop_map(|(x, o)| Spec::Gen { x, o }),
        1 => (seed_len(0u64..100), l()).prop_map(|(n, o)| Spec::SeedGen { n, o }),
        1 => (hs(), small(), small(), 1u32..4, l()).prop_map(|(h, pw, salt, n, o)| Spec::Pbkdf { h, pw, salt, n, o }),
        1 => (small(), l()).prop_map(|(m, i)| Spec::Sign { m, i }),
        1 => (l(), l()).prop_map(|(a, o)| Spec::Copy { a, o }),
        1 => (hs(), small(), small(), l(), l()).prop_map(|(h, salt, label, i, o)| Spec::Hkdf { h, salt, label, i, o }),
        1 => spec(2, 5, false),
    ]
    .boxed()
}

fn run(case: &Case) -> vh::R<Out> {
    let hold = Stronghold::default();
    let c = hold.create_client("a").unwrap();
    let mut m = Model::new();
    for (l, p) in &case.init {
        c.vault(vault_path(l.v)).write_secret(l.get(), p.bytes()).map_err(|e| vh::Failure::new("write", e.to_string()))?;
        m.insert(*l, Slot::Live(Val::Known(p.bytes())));
    }
    let mut locs: BTreeSet<Loc> = case.init.iter().map(|x| x.0).collect();
    for ch in &case.chains {
        for s in ch {
            locs.extend(s.locs());
        }
    }
    let locs: Vec<Loc> = locs.into_iter().collect();
    let (mut failed_late, mut succeeded, mut failed) = (0, 0, 0);
    for (ci, ch) in case.chains.iter().enumerate() {
        // reference run: model along the chain. Crafted inputs use the model state at their position.
        let mut mm = m.clone();
        let mut procs = vec![];
        let mut expect_fail = None;
        let mut mid = vec![];
        for (k, s) in ch.iter().enumerate() {
            procs.push(s.build(&mm));
            mid.push(mm.clone());
            if expect_fail.is_some() {
                continue;
            }
            match s.predict(&mm) {
                Pred::Err(e) => expect_fail = Some((k, e)),
                Pred::Ok { secret, .. } => {
                    if let (Some(v), Some(t)) = (secret, s.target()) {
                        mm.insert(t, Slot::Live(v));
                    }
                }
                Pred::Unit => s.apply(&mut mm, vec![], "model")?,
                Pred::Mnemonic { .. } => unreachable!(),
            }
        }
        let what = format!("chain {ci}");
        let res = no_panic_exec(&c, procs, &what)?;
        match (res, expect_fail) {
            (Ok(outs), None) => {
                succeeded += 1;
                ensure_eq!(outs.len(), ch.len(), "output-count", "{what}: number of outputs");
                for (k, (s, o)) in ch.iter().zip(outs).enumerate() {
                    s.apply(&mut mid[k], o.into(), &format!("{what}, procedure {k} {}", s.name()))?;
                }
                m = mm;
            }
            (Ok(_), Some((k, e))) => fail!("chain-accepted", "{what}: succeeded, but procedure {k} {:?} must be refused ({e})", ch[k]),
            (Err(e), None) => fail!("chain-refused", "{what}: refused although every procedure is valid: {e}"),
            (Err(_), Some((k, _))) => {
                failed += 1;
                failed_late += (k > 0) as u32;
                // Effects of the explicit revocations and collections before the failure stay; every secret the
                // chain produced before the failure is gone. mid[k] is the state at the failing procedure.
                let mut after = mid[k].clone();
                for s in &ch[..k] {
                    if let Some(t) = s.target() {
                        if after.contains_key(&t) {
                            after.insert(t, Slot::Revoked);
                        }
                    }
                }
                m = after;
            }
        }
        check_model(&c, &m, &locs, &format!("{what} ({})", ch.iter().map(|s| s.name()).collect::<Vec<_>>().join(",")))?;
        // the client stays usable
        let l = Location::generic("fresh", format!("r{ci}"));
        c.vault("fresh").write_secret(l.clone(), vec![1, 2, 3]).map_err(|e| vh::Failure::new("unusable", format!("{what}: later write: {e}")))?;
        check_secret(&c, &l, Some(&[1, 2, 3]), "fresh location afterwards")?;
        c.store().insert(b"k".to_vec(), b"v".to_vec(), None).map_err(|e| vh::Failure::new("unusable", format!("{what}: later store insert: {e}")))?;
    }
    Ok(Out::new(failed_late > 0).tag_if(failed > 0, "failing-chain").tag_if(failed_late > 0, "fails-after-writes").tag_if(succeeded > 0, "succeeding-chain"))
}

fn no_panic_exec(
    c: &Client,
    p: Vec<sh::procedures::StrongholdProcedure>,
    what: &str,
) -> vh::R<Result<Vec<sh::procedures::ProcedureOutput>, sh::procedures::ProcedureError>> {
    let names = format!("{p:?}").chars().take(300).collect::<String>();
    vh::no_panic(|| c.execute_procedure_chained(p)).map_err(|m| {
        let site = m.rsplit(" at ").next().unwrap_or("").rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
        vh::Failure::new(format!("panic:{site}"), format!("{what}: panicked: {m} in {names}"))
    })
}

// ---------------------------------------------------------------- procedures of the user

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Own {
    Write(Loc, Pay),
    Revoke(Loc),
    Collect(u8),
    /// a procedure over up to five sources, which may give up
    Use(Vec<Loc>, bool),
}
fn own(t: Tier) -> BoxedStrategy<Vec<Own>> {
    let n = if t == Tier::Quick { 20 } else { 60 };
    let l = || loc(3, 3);
    let p = || (prop_oneof![4 => 0u32..40, 1 => 40u32..5000], 2u16..5000).prop_map(|(len, s)| Pay { len, s });
    let srcs = || prop::collection::vec(l(), 0..6);
    let fail = || prop::bool::weighted(0.25);
    let most = prop_oneof![Just(vec![]), p().prop_map(|p| (0..9).map(|i| Own::Write(Loc { v: i / 3, r: i % 3 }, Pay { len: p.len + i as u32, s: p.s + i as u16 })).collect())];
    let ops = prop::collection::vec(
        prop_oneof![
            4 => (l(), p()).prop_map(|(l, p)| Own::Write(l, p)),
            1 => l().prop_map(Own::Revoke),
            1 => (0u8..3).prop_map(Own::Collect),
            4 => (srcs(), fail()).prop_map(|(s, f)| Own::Use(s, f)),
        ],
        1..n,
    );
    (most, ops).prop_map(|(mut m, o): (Vec<Own>, Vec<Own>)| {
        m.extend(o);
        m
    })
    .boxed()
}
struct Mine<'a, const N: usize> {
    sources: [Location; N],
    fail: bool,
    seen: &'a std::cell::RefCell<Vec<Vec<Vec<u8>>>>,
}
impl<const N: usize> Mine<'_, N> {
    fn look(&self, guards: [engine::runtime::memories::buffer::Buffer<u8>; N]) -> Result<Vec<Vec<u8>>, procedures::FatalProcedureError> {
        let v: Vec<Vec<u8>> = guards.iter().map(|g| g.borrow().to_vec()).collect();
        self.seen.borrow_mut().push(v.clone());
        match self.fail {
            true => Err("given up".to_string().into()),
            false => Ok(v),
        }
    }
}
impl<const N: usize> procedures::UseSecret<N> for Mine<'_, N> {
    type Output = usize;
    fn use_secret(self, guards: [engine::runtime::memories::buffer::Buffer<u8>; N]) -> Result<usize, procedures::FatalProcedureError> {
        self.look(guards).map(|v| v.len())
    }
    fn source(&self) -> [Location; N] {
        self.sources.clone()
    }
}
fn run_own(ops: &Vec<Own>) -> vh::R<Out> {
    use procedures::UseSecret;
    let hold = Stronghold::default();
    let cl = hold.create_client("c").map_err(|e| vh::Failure::new("create", e.to_string()))?;
    let mut m: std::collections::BTreeMap<Loc, Vec<u8>> = Default::default();
    let mut revoked: BTreeSet<Loc> = BTreeSet::new();
    let (mut good, mut missing, mut gave_up, mut most) = (0, 0, 0, 0);
    for (i, op) in ops.iter().enumerate() {
        let what = format!("op {i} {op:?}");
        match op {
            Own::Write(l, p) => {
                let r = np("write", || cl.vault(vault_path(l.v)).write_secret(l.get(), p.bytes()))?;
                ensure!(r.is_ok() != revoked.contains(l), "write", "{what}: {r:?}");
                if r.is_ok() {
                    m.insert(l.clone(), p.bytes());
                }
            }
            Own::Revoke(l) => {
                let r = np("revoke", || cl.vault(vault_path(l.v)).revoke_secret(l.record_path().unwrap()))?;
                ensure!(r.is_ok(), "revoke", "{what}: {r:?}");
                if m.remove(l).is_some() {
                    revoked.insert(l.clone());
                }
            }
            Own::Collect(v) => {
                let r = np("collect", || cl.vault(vault_path(*v)).cleanup())?;
                ensure!(r.is_ok(), "collect", "{what}: {r:?}");
                revoked.retain(|l| l.v != *v);
            }
            Own::Use(sources, fail) => {
                let fail = *fail;
                let seen = std::cell::RefCell::new(vec![]);
                macro_rules! go {
                    ($n:literal) => {{
                        let sources: [Location; $n] = sources.iter().map(|l| l.get()).collect::<Vec<_>>().try_into().unwrap();
                        Mine::<$n> { sources, fail, seen: &seen }.exec(&cl)
                    }};
                }
                let r = np("own", std::panic::AssertUnwindSafe(|| match sources.len() {
                    0 => go!(0),
                    1 => go!(1),
                    2 => go!(2),
                    3 => go!(3),
                    4 => go!(4),
                    _ => go!(5),
                }))?;
                let there: Option<Vec<Vec<u8>>> = sources.iter().map(|l| m.get(l).cloned()).collect();
                let seen = seen.into_inner();
                ensure!(seen.len() <= 1, "called-twice", "{what}: the procedure was called {} times", seen.len());
                if let Some(s) = seen.first() {
                    ensure!(there.as_ref() == Some(s), "sources", "{what}: the procedure was given other secrets than those at its sources, in their order");
                }
                match (&r, &there) {
                    (Ok(n), Some(s)) => {
                        ensure!(!fail, "succeeded", "{what}: succeeded");
                        ensure!(*n == s.len() && seen.len() == 1, "output", "{what}: output {n}, called {} times", seen.len());
                        good += 1;
                        most = most.max(*n);
                    }
                    (Ok(_), None) => fail!("missing-source", "{what}: succeeded although a source is missing"),
                    (Err(e), Some(_)) => {
                        ensure!(fail, "refused", "{what}: {e}");
                        gave_up += fail as u32;
                    }
                    (Err(_), None) => missing += 1,
                }
            }
        }
        for v in 0..3 {
            for r in 0..3 {
                let l = Loc { v, r };
                if i + 1 == ops.len() || i % 9 == (v * 3 + r) as usize {
                    check_secret(&cl, &l.get(), m.get(&l).map(|x| &x[..]), &what)?;
                }
            }
        }
    }
    Ok(Out::new(good > 0 && missing + gave_up > 0).tag_if(most > 2, "more than two sources").tag_if(gave_up > 0, "given up").tag_if(missing > 0, "source missing"))
}

fn main() {
    vh::main(vec![Property {
        id: "C10",
        level: "exploration",
        assumptions: &["requested output sizes are bounded (a request for more memory than exists is a resource limit, not a refusal)",
            "outputs of generated random secrets are only checked for size and for not being zero"],
        facets: vec![Facet {
            name: "own",
            rule: "procedures written against the public traits, over up to five sources, which may give up; non-trivial = one succeeds and one fails",
            cases: (3000, 100000),
            batch: 50,
            racy: false,
            strategy: own,
            run: run_own,
        }
        .boxed(),
        Facet {
            name: "long",
            rule: "chains of 5-140 procedures over 45 locations, most of them valid; non-trivial = a chain fails after at least one procedure succeeded",
            cases: (400, 8000),
            batch: 10,
            racy: false,
            strategy: long,
            run,
        }
        .boxed(),
        Facet {
            name: "chains",
            rule: "random chains of 1-6 procedures of all kinds with valid and invalid arguments over 10 locations; non-trivial = a chain fails after at least one procedure succeeded",
            cases: (9000, 200000),
            batch: 20,
            racy: false,
            strategy,
            run,
        }
        .boxed()],
        findings: vec![],
    }])
}

//! C19: text and wire encodings.
use chk::{procs::*, *};
use engine::vault::{Base64Decodable, Base64Encodable, BlobId, ChainId, ClientId, Id, RecordHint, RecordId, VaultId};
use sh::{procedures::*, Location};
use vh::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Data(Vec<u8>);
fn data(_: Tier) -> BoxedStrategy<Data> {
    prop_oneof![
        4 => prop::collection::vec(any::<u8>(), 0..8),
        2 => prop::collection::vec(any::<u8>(), 20..30),
        4 => prop::collection::vec(any::<u8>(), 24..25),
        3 => prop::collection::vec(any::<u8>(), 0..200),
        1 => prop::collection::vec(prop_oneof![Just(0xffu8), Just(0xfb), Just(0xf0), Just(0)], 0..20),
        1 => (0usize..4000, any::<u16>()).prop_map(|(n, s)| bytes(n, s as u64)),
    ]
    .prop_map(Data)
    .boxed()
}
fn run_data(d: &Data) -> vh::R<Out> {
    let d = &d.0;
    let t = np("base64", || d.base64())?;
    ensure_eq!(t, refimpl::b64_encode(d), "base64-encode", "encoding of {}", hex(&d[..d.len().min(60)]));
    match np("from_base64", || Vec::from_base64(&t))? {
        Ok(b) => ensure!(b == *d, "base64-round-trip", "{t} decodes to {}", hex(&b)),
        Err(_) => fail!("base64-refused", "{t} is refused"),
    }
    // identifiers
    macro_rules! id {
        ($t:ty, $r:expr, $get:expr) => {
            match (np(stringify!($t), || $r)?, d.len() == 24) {
                (Ok(i), true) => {
                    #[allow(clippy::redundant_closure_call)]
                    let b: Vec<u8> = $get(i);
                    ensure!(b == *d, concat!("id:", stringify!($t)), "{} -> {}", hex(d), hex(&b));
                }
                (Err(_), false) => {}
                (Ok(_), false) => fail!(concat!("id-accepted:", stringify!($t)), "{} bytes are accepted as an identifier", d.len()),
                (Err(_), true) => fail!(concat!("id-refused:", stringify!($t)), "24 bytes are refused"),
            }
        };
    }
    let s = &d[..];
    id!(ClientId, ClientId::try_from(s), |i: ClientId| i.into());
    id!(ClientId, ClientId::try_from(d.clone()), |i: ClientId| i.as_ref().to_vec());
    id!(ClientId, ClientId::load(s), |i: ClientId| i.as_ref().to_vec());
    id!(VaultId, VaultId::try_from(s), |i: VaultId| i.into());
    id!(VaultId, VaultId::try_from(d.clone()), |i: VaultId| i.as_ref().to_vec());
    id!(VaultId, VaultId::load(s), |i: VaultId| i.as_ref().to_vec());
    id!(ChainId, ChainId::try_from(s), |i: ChainId| i.as_ref().to_vec());
    id!(ChainId, ChainId::try_from(d.clone()), |i: ChainId| i.as_ref().to_vec());
    id!(ChainId, ChainId::load(s), |i: ChainId| i.as_ref().to_vec());
    id!(RecordId, RecordId::try_from(s), |i: RecordId| ChainId::from(i).as_ref().to_vec());
    id!(RecordId, RecordId::try_from(d.clone()), |i: RecordId| ChainId::from(i).as_ref().to_vec());
    id!(RecordId, RecordId::load(s), |i: RecordId| ChainId::from(i).as_ref().to_vec());
    id!(Id, Id::try_from(s), |i: Id| i.as_ref().to_vec());
    id!(Id, Id::try_from(d.clone()), |i: Id| i.as_ref().to_vec());
    id!(Id, Id::load(s), |i: Id| i.as_ref().to_vec());
    id!(BlobId, BlobId::try_from(s), |i: BlobId| i.into());
    id!(BlobId, BlobId::try_from(s), |i: BlobId| (&i).into());
    if d.len() == 24 {
        let r = RecordId::load(s).unwrap();
        ensure_eq!(r.to_string(), t, "record-display", "text of a record id");
        ensure_eq!(RecordId::from(ChainId::load(s).unwrap()), r, "record-chain", "record id of a chain id");
        let c: String = ClientId::load(s).unwrap().into();
        ensure_eq!(c, t, "client-text", "text of a client id");
        let v: String = VaultId::load(s).unwrap().into();
        ensure_eq!(v, t, "vault-text", "text of a vault id");
        for (what, x) in [
            ("ClientId", format!("{:?}", ClientId::load(s).unwrap())),
            ("VaultId", format!("{:?}", VaultId::load(s).unwrap())),
            ("RecordId", format!("{r:?}")),
            ("BlobId", format!("{:?}", BlobId::try_from(s).unwrap())),
        ] {
            ensure!(x.contains(&t), "id-debug", "the debug text of {what} {} is {x}", hex(d));
        }
        wire(&r)?;
        wire(&ClientId::load(s).unwrap())?;
        wire(&VaultId::load(s).unwrap())?;
        wire(&BlobId::try_from(s).unwrap())?;
        wire(&RecordHint::new(s).unwrap())?;
    }
    // hints: up to 24 bytes, zero padded
    match np("RecordHint", || RecordHint::new(d))? {
        Some(h) => {
            ensure!(d.len() <= 24, "hint-accepted", "{} bytes are accepted as a hint", d.len());
            let mut e = d.clone();
            e.resize(24, 0);
            ensure!(h.as_ref() == e, "hint", "hint of {} is {}", hex(d), hex(h.as_ref()));
            let a: [u8; 24] = e.try_into().unwrap();
            ensure!(RecordHint::from(a) == h, "hint-from", "hint from an array");
        }
        None => ensure!(d.len() > 24, "hint-refused", "{} bytes are refused as a hint", d.len()),
    }
    // procedure outputs
    let o: Vec<u8> = ProcedureOutput::from(d.clone()).into();
    ensure!(o == *d, "output-bytes", "procedure output of {}", hex(d));
    match (String::try_from(ProcedureOutput::from(d.clone())), std::str::from_utf8(d)) {
        (Ok(a), Ok(b)) => {
            ensure_eq!(a, b, "output-text", "procedure output as text");
            ensure!(ProcedureOutput::from(a) == ProcedureOutput::from(d.clone()), "output-from-text", "procedure output from a text");
        }
        (Err(_), Err(_)) => {}
        _ => fail!("output-utf8", "procedure output {} as text", hex(d)),
    }
    let a: Result<[u8; 24], _> = ProcedureOutput::from(d.clone()).try_into();
    match a {
        Ok(a) => ensure!(d.len() == 24 && a[..] == d[..], "output-array", "procedure output of {} bytes as an array", d.len()),
        Err(_) => ensure!(d.len() != 24, "output-array-refused", "24 bytes as an array"),
    }
    wire(&ProcedureOutput::from(d.clone()))?;
    Ok(Out::new(!d.is_empty()).tag_if(d.len() == 24, "identifier"))
}
fn wire<T: Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug>(v: &T) -> vh::R<()> {
    let j = serde_json::to_string(v).map_err(|e| vh::Failure::new("json", e.to_string()))?;
    let b = bincode::serialize(v).map_err(|e| vh::Failure::new("bincode", e.to_string()))?;
    match (serde_json::from_str::<T>(&j), bincode::deserialize::<T>(&b)) {
        (Ok(x), Ok(y)) => ensure!(x == *v && y == *v, "wire", "{v:?} comes back as {x:?} and {y:?}"),
        (x, y) => fail!("wire-refused", "{v:?}: {:?} {:?}", x.err(), y.err().map(|e| e.to_string())),
    }
    Ok(())
}

/// Texts: near-valid and arbitrary.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text(Vec<u8>);
fn text(_: Tier) -> BoxedStrategy<Text> {
    let b64c = prop_oneof![20 => "[A-Za-z0-9_-]".prop_map(|s| s.into_bytes()[0]), 1 => Just(b'='), 1 => prop::sample::select(b"+/ \n.=@[`{:/\x00\x80\xff".to_vec())];
    prop_oneof![
        3 => prop::collection::vec(b64c, 0..24),
        2 => prop::collection::vec(any::<u8>(), 0..12),
        // valid, then one change
        4 => (prop::collection::vec(any::<u8>(), 0..40), any::<u16>(), any::<u8>(), 0u8..5).prop_map(|(d, i, b, k)| {
            let mut t = refimpl::b64_encode(&d).into_bytes();
            let n = t.len();
            match k {
                0 if n > 0 => t[i as usize % n] = b,
                1 => { t.pop(); }
                2 => t.push(b'='),
                3 => t.insert(i as usize % (n + 1), b),
                4 if n > 0 => t[i as usize % n] = b'=',
                _ => {}
            }
            t
        }),
        1 => prop::collection::vec(prop_oneof![3 => Just(b'='), 1 => Just(b'A'), 1 => Just(b'_')], 0..9),
    ]
    .prop_map(Text)
    .boxed()
}
fn run_text(t: &Text) -> vh::R<Out> {
    let t = &t.0;
    let got = np("from_base64", || Vec::from_base64(t))?;
    let exp = refimpl::b64_decode(t);
    let show = String::from_utf8_lossy(t).to_string();
    match (&got, &exp) {
        (Ok(g), Some(e)) => ensure!(g == e, "base64-decode", "{show:?} decodes to {}, expected {}", hex(g), hex(e)),
        (Err(_), None) => {}
        (Ok(g), None) => fail!("base64-accepted", "malformed {show:?} decodes to {}", hex(g)),
        (Err(_), Some(e)) => fail!("base64-refused", "{show:?} is refused, expected {}", hex(e)),
    }
    Ok(Out::new(!t.is_empty()).tag(if exp.is_some() { "valid" } else { "malformed" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct L {
    counter: Option<u64>,
    v: Vec<u8>,
    r: Vec<u8>,
}
/// Long data and its text, unchanged or with one change.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    len: u32,
    seed: u16,
    change: Option<(u32, u8, u8)>,
}
fn long(t: Tier) -> BoxedStrategy<Long> {
    let most = if t == Tier::Quick { 600_000u32 } else { 5_000_000 };
    let len = prop_oneof![2 => 200u32..10_000, 2 => 10_000u32..most, 3 => (8u32..20, 0u32..12).prop_map(|(e, d)| (1u32 << e) + d - 6), 1 => (8u32..19, 0u32..12).prop_map(|(e, d)| (3u32 << e) + d - 6)];
    (len, any::<u16>(), prop::option::of((any::<u32>(), any::<u8>(), 0u8..5))).prop_map(|(len, seed, change)| Long { len, seed, change }).boxed()
}
fn run_long(l: &Long) -> vh::R<Out> {
    let d = bytes(l.len as usize, l.seed as u64);
    run_data(&Data(d.clone())).map_err(|e| vh::Failure::new(e.sig, e.msg.chars().take(300).collect::<String>()))?;
    if let Some((i, b, k)) = l.change {
        let mut t = refimpl::b64_encode(&d).into_bytes();
        let n = t.len();
        match k {
            0 => t[i as usize % n] = b,
            1 => {
                t.pop();
            }
            2 => t.push(b'='),
            3 => t.insert(i as usize % (n + 1), b),
            _ => t[i as usize % n] = b'=',
        }
        run_text(&Text(t)).map_err(|e| vh::Failure::new(e.sig, e.msg.chars().take(300).collect::<String>()))?;
    }
    Ok(Out::new(true).tag_if(l.len > 65_536, "longer than 64 KiB"))
}
fn locs(_: Tier) -> BoxedStrategy<L> {
    let b = || prop_oneof![3 => prop::collection::vec(any::<u8>(), 0..6), 1 => prop::collection::vec(any::<u8>(), 0..300), 1 => (250usize..70_000, any::<u16>()).prop_map(|(n, s)| bytes(n, s as u64))];
    (prop::option::of(prop_oneof![0u64..20, any::<u64>(), Just(u64::MAX)]), b(), b()).prop_map(|(counter, v, r)| L { counter, v, r }).boxed()
}
fn run_loc(l: &L) -> vh::R<Out> {
    let loc = match l.counter {
        Some(c) => Location::counter(l.v.clone(), c as usize),
        None => Location::generic(l.v.clone(), l.r.clone()),
    };
    ensure!(loc.vault_path() == l.v, "vault-path", "vault path of {loc:?}");
    if l.counter.is_none() {
        ensure!(loc.record_path() == l.r, "record-path", "record path of {loc:?}");
    }
    let same = |x: &Location| match (x, &loc) {
        (Location::Generic { vault_path: a, record_path: b }, Location::Generic { vault_path: c, record_path: d }) => a == c && b == d,
        (Location::Counter { vault_path: a, counter: b }, Location::Counter { vault_path: c, counter: d }) => a == c && b == d,
        _ => false,
    };
    let j = serde_json::to_vec(&loc).unwrap();
    let b = bincode::serialize(&loc).unwrap();
    let x: Location = serde_json::from_slice(&j).map_err(|e| vh::Failure::new("location-json", e.to_string()))?;
    let y: Location = bincode::deserialize(&b).map_err(|e| vh::Failure::new("location-bincode", e.to_string()))?;
    ensure!(same(&x) && same(&y), "location", "{loc:?} comes back as {x:?} and {y:?}");
    ensure!(x.resolve() == loc.resolve(), "location-ids", "{loc:?} resolves differently after a round trip");
    Ok(Out::new(true))
}

/// Procedures are executed after a round trip: what is lost on the wire shows in the result.
fn json(p: StrongholdProcedure) -> vh::R<StrongholdProcedure> {
    let t = serde_json::to_string(&p).map_err(|e| vh::Failure::new("procedure-json", e.to_string()))?;
    serde_json::from_str(&t).map_err(|e| vh::Failure::new("procedure-json-refused", e.to_string()))
}
fn binc(p: StrongholdProcedure) -> vh::R<StrongholdProcedure> {
    let t = bincode::serialize(&p).map_err(|e| vh::Failure::new("procedure-bincode", e.to_string()))?;
    bincode::deserialize(&t).map_err(|e| vh::Failure::new("procedure-bincode-refused", e.to_string()))
}
fn procs(_: Tier) -> BoxedStrategy<Hist> {
    hist(prop_oneof![40 => spec(2, 3, true), 1 => mn_spec(2, 3)].boxed(), 12)
}
fn run_json(h: &Hist) -> vh::R<Out> {
    run_hist_with(h, json)
}
fn run_binc(h: &Hist) -> vh::R<Out> {
    run_hist_with(h, binc)
}

/// Malformed wire forms of procedures, locations and outputs: refused or decoded, never a panic.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    op: Spec,
    json: bool,
    cut: Option<u16>,
    edits: Vec<(u16, u8)>,
}
fn bad(_: Tier) -> BoxedStrategy<Bad> {
    (spec(2, 3, true), any::<bool>(), prop::option::of(0u16..200), prop::collection::vec((any::<u16>(), any::<u8>()), 0..4))
        .prop_map(|(op, json, cut, edits)| Bad { op, json, cut, edits })
        .boxed()
}
fn run_bad(b: &Bad) -> vh::R<Out> {
    let p = b.op.build(&Model::new());
    let mut t = if b.json { serde_json::to_vec(&p).unwrap() } else { bincode::serialize(&p).unwrap() };
    if let Some(c) = b.cut {
        t.truncate(t.len().saturating_sub(c as usize));
    }
    for (i, x) in &b.edits {
        let n = t.len();
        if n > 0 {
            t[*i as usize % n] = *x
        }
    }
    let again = |p: &StrongholdProcedure| if b.json { serde_json::to_vec(p).unwrap() } else { bincode::serialize(p).unwrap() };
    let dec = |t: &[u8]| -> Option<StrongholdProcedure> {
        if b.json { serde_json::from_slice(t).ok() } else { bincode::deserialize(t).ok() }
    };
    let r = np("deserialise", || dec(&t))?;
    if let Some(q) = &r {
        // what is accepted has one canonical form
        let e = again(q);
        let e2 = dec(&e).map(|p| again(&p));
        ensure!(e2.as_ref() == Some(&e), "procedure-canonical", "an accepted wire form does not come back as itself");
    }
    Ok(Out::new(!b.edits.is_empty() || b.cut.is_some()).tag(if r.is_some() { "accepted" } else { "refused" }))
}

fn main() {
    vh::main(vec![Property {
        id: "C19",
        level: "exploration",
        assumptions: &["unused trailing bits of the last base64 digit are ignored by the decoder, which RFC 4648 allows", "wire forms are serde's JSON and bincode"],
        facets: vec![
            Facet { name: "bytes", rule: "byte strings as base64, as each identifier type, as hints and as procedure outputs; non-trivial = not empty", cases: (80000, 2000000), batch: 1000, racy: false, strategy: data, run: run_data }.boxed(),
            Facet { name: "texts", rule: "near-valid and arbitrary texts against an independent RFC 4648 decoder; non-trivial = not empty", cases: (300000, 10000000), batch: 1000, racy: false, strategy: text, run: run_text }.boxed(),
            Facet { name: "long", rule: "data of up to 600 kB (thorough: 5 MB), also around powers of two, and its text with one change; non-trivial = always", cases: (1000, 20000), batch: 10, racy: false, strategy: long, run: run_long }.boxed(),
            Facet { name: "locations", rule: "locations through JSON and bincode; all non-trivial", cases: (5000, 100000), batch: 500, racy: false, strategy: locs, run: run_loc }.boxed(),
            Facet { name: "procedures-json", rule: "histories of procedures sent through JSON and judged by their results against the reference; non-trivial = at least one succeeds", cases: (2500, 30000), batch: 20, racy: false, strategy: procs, run: run_json }.boxed(),
            Facet { name: "procedures-bincode", rule: "the same through bincode", cases: (2500, 30000), batch: 20, racy: false, strategy: procs, run: run_binc }.boxed(),
            Facet { name: "malformed", rule: "damaged wire forms of procedures; non-trivial = damaged", cases: (20000, 300000), batch: 500, racy: false, strategy: bad, run: run_bad }.boxed(),
        ],
        findings: vec![],
    }])
}

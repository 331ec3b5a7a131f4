//! C18: the snapshot compression against an independent LZ4 block decoder.
use chk::*;
use engine::snapshot::{compress, decompress};
use vh::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Seg {
    Rand { n: u32, s: u16 },
    Run { b: u8, n: u32 },
    /// repeats earlier bytes
    Back { d: u32, n: u32 },
    Period { p: u8, n: u32, s: u16 },
    Text { n: u32 },
}
/// A lookup table slot is only kept while nothing else maps to it: runs between two copies of a block put
/// them at any distance.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plain(Vec<Seg>);
impl Plain {
    fn bytes(&self) -> Vec<u8> {
        let mut v: Vec<u8> = vec![];
        for s in &self.0 {
            match s {
                Seg::Rand { n, s } => v.extend(bytes(*n as usize, *s as u64)),
                Seg::Run { b, n } => v.resize(v.len() + *n as usize, *b),
                Seg::Back { d, n } => {
                    let d = (*d as usize).clamp(1, v.len().max(1));
                    for _ in 0..*n {
                        let x = if v.is_empty() { 0 } else { v[v.len() - d] };
                        v.push(x)
                    }
                }
                Seg::Period { p, n, s } => {
                    let b = bytes((*p).max(1) as usize, *s as u64);
                    v.extend(b.iter().cycle().take(*n as usize))
                }
                Seg::Text { n } => v.extend(b"the quick brown fox jumps over the lazy dog; ".iter().cycle().take(*n as usize)),
            }
        }
        v
    }
}
fn len() -> BoxedStrategy<u32> {
    prop_oneof![
        6 => 0u32..40,
        3 => prop::sample::select(vec![3u32, 4, 5, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 254, 255, 256, 268, 269, 270, 271, 272, 273, 274, 275, 524, 525, 528, 529, 530, 531]),
        2 => 40u32..700,
        1 => prop::sample::select(vec![4094u32, 4095, 4096, 4097, 8192]),
    ]
    .boxed()
}
fn seg() -> BoxedStrategy<Seg> {
    prop_oneof![
        3 => (len(), any::<u16>()).prop_map(|(n, s)| Seg::Rand { n, s }),
        2 => (any::<u8>(), len()).prop_map(|(b, n)| Seg::Run { b, n }),
        3 => (prop_oneof![1u32..20, 1u32..70000, 65530u32..65540], len()).prop_map(|(d, n)| Seg::Back { d, n }),
        1 => (1u8..40, len(), any::<u16>()).prop_map(|(p, n, s)| Seg::Period { p, n, s }),
        1 => len().prop_map(|n| Seg::Text { n }),
    ]
    .boxed()
}
fn plain(_: Tier) -> BoxedStrategy<Plain> {
    prop_oneof![
        6 => prop::collection::vec(seg(), 0..8).prop_map(Plain),
        // two equal blocks at a chosen distance, around the largest one that an offset can express
        3 => (5u32..60, any::<u16>(), any::<u8>(), prop_oneof![3 => 65500u32..65560, 1 => 100u32..70000, 1 => 131000u32..131200], len())
            .prop_map(|(n, s, b, d, tail)| Plain(vec![Seg::Rand { n, s }, Seg::Run { b, n: d - n }, Seg::Back { d, n }, Seg::Rand { n: tail, s: s ^ 1 }])),
        // long literal and match lengths
        1 => (any::<u16>(), 0u32..70000, 0u32..140000).prop_map(|(s, n, m)| Plain(vec![Seg::Rand { n, s }, Seg::Run { b: s as u8, n: m }])),
    ]
    .boxed()
}
/// Megabytes: long runs, long literals and repetitions of everything before.
fn large(t: Tier) -> BoxedStrategy<Plain> {
    let most = if t == Tier::Quick { 6u32 << 20 } else { 40 << 20 };
    let n = || prop_oneof![2 => 0u32..1000, 2 => 1000u32..300_000, 2 => 300_000u32..most, 1 => (10u32..23, 0u32..40).prop_map(move |(e, d)| ((1u32 << e) + d).saturating_sub(20).min(most))];
    prop::collection::vec(
        prop_oneof![
            2 => (n(), any::<u16>()).prop_map(|(n, s)| Seg::Rand { n, s }),
            2 => (any::<u8>(), n()).prop_map(|(b, n)| Seg::Run { b, n }),
            2 => (prop_oneof![1u32..20, 1u32..70000, 60_000u32..3_000_000], n()).prop_map(|(d, n)| Seg::Back { d, n }),
            1 => (1u8..40, n(), any::<u16>()).prop_map(|(p, n, s)| Seg::Period { p, n, s }),
            1 => n().prop_map(|n| Seg::Text { n }),
            2 => seg(),
        ],
        1..6,
    )
    .prop_map(Plain)
    .boxed()
}
fn run_plain(p: &Plain) -> vh::R<Out> {
    let v = p.bytes();
    let c = np("compress", || compress(&v))?;
    match refimpl::lz4_decode(&c) {
        Some(d) => ensure!(d == v, "encoding", "an independent decoder reads {} bytes from the compressed form of {} bytes{}", d.len(), v.len(), diff(&d, &v)),
        None => fail!("malformed", "the compressed form of {} bytes is not a valid LZ4 block", v.len()),
    }
    match np("decompress", || decompress(&c))? {
        Ok(d) => ensure!(d == v, "round-trip", "decompressing {} bytes yields {} bytes{}", v.len(), d.len(), diff(&d, &v)),
        Err(e) => fail!("refused", "decompressing the compressed form of {} bytes: {e}", v.len()),
    }
    ensure!(c.len() <= v.len() + v.len() / 250 + 16, "expansion", "{} bytes are compressed to {}", v.len(), c.len());
    Ok(Out::new(c.len() < v.len()).tag_if(c.len() < v.len(), "compressed").tag_if(v.len() > 65536, "longer than the window").tag_if(v.len() > 4 << 20, "above 4 MiB").tag_if(v.len() < 13, "tiny"))
}
fn diff(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!(", first difference at {i}"),
        None => String::new(),
    }
}

/// Blocks put together sequence by sequence, valid or not.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seq {
    lit: u32,
    s: u16,
    off: u16,
    m: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Raw {
    Block { seqs: Vec<Seq>, cut: Option<u16>, flip: Option<(u16, u8)> },
    /// the compressed form of something, damaged
    Damaged { p: Plain, cut: Option<u16>, flips: Vec<(u32, u8)>, ins: Option<(u16, u8)> },
    Bytes(Vec<u8>),
}
impl Raw {
    fn bytes(&self) -> Vec<u8> {
        fn ext(v: &mut Vec<u8>, n: u32) {
            if n >= 15 {
                let mut n = n - 15;
                while n >= 255 {
                    v.push(255);
                    n -= 255
                }
                v.push(n as u8)
            }
        }
        match self {
            Raw::Block { seqs, cut, flip } => {
                let mut v = vec![];
                for q in seqs {
                    v.push((q.lit.min(15) << 4) as u8 | q.m.min(15) as u8);
                    ext(&mut v, q.lit);
                    v.extend(bytes(q.lit as usize, q.s as u64));
                    v.extend(q.off.to_le_bytes());
                    ext(&mut v, q.m);
                }
                if let Some(c) = cut {
                    v.truncate(v.len().saturating_sub(*c as usize))
                }
                if let (Some((i, b)), false) = (flip, v.is_empty()) {
                    let n = v.len();
                    v[*i as usize % n] = *b
                }
                v
            }
            Raw::Damaged { p, cut, flips, ins } => {
                let mut v = compress(&p.bytes());
                if let Some(c) = cut {
                    v.truncate(v.len().saturating_sub(*c as usize))
                }
                for (i, b) in flips {
                    let n = v.len();
                    if n > 0 {
                        v[*i as usize % n] = *b
                    }
                }
                if let Some((i, b)) = ins {
                    let n = v.len() + 1;
                    v.insert(*i as usize % n, *b)
                }
                v
            }
            Raw::Bytes(b) => b.clone(),
        }
    }
}
fn raw(_: Tier) -> BoxedStrategy<Raw> {
    let n = || prop_oneof![6 => 0u32..20, 1 => prop::sample::select(vec![14u32, 15, 16, 269, 270, 271, 524, 525]), 1 => 20u32..600];
    let seq = (n(), any::<u16>(), prop_oneof![8 => 1u16..30, 1 => Just(0), 1 => any::<u16>()], n()).prop_map(|(lit, s, off, m)| Seq { lit, s, off, m });
    prop_oneof![
        5 => (prop::collection::vec(seq, 0..6), prop::option::of(0u16..12), prop::option::of((any::<u16>(), any::<u8>())))
            .prop_map(|(seqs, cut, flip)| Raw::Block { seqs, cut, flip }),
        3 => (prop::collection::vec(seg(), 0..4), prop::option::of(1u16..40), prop::collection::vec((any::<u32>(), any::<u8>()), 0..3), prop::option::of((any::<u16>(), any::<u8>())))
            .prop_map(|(p, cut, flips, ins)| Raw::Damaged { p: Plain(p), cut, flips, ins }),
        3 => prop::collection::vec(prop_oneof![3 => any::<u8>(), 1 => Just(0xffu8), 1 => Just(0u8), 1 => 0u8..20], 0..60).prop_map(Raw::Bytes),
        1 => prop::collection::vec(any::<u8>(), 0..4).prop_map(Raw::Bytes),
    ]
    .boxed()
}
fn run_raw(r: &Raw) -> vh::R<Out> {
    let b = r.bytes();
    let exp = refimpl::lz4_decode(&b);
    let got = np("decompress", || decompress(&b))?;
    match (&got, &exp) {
        (Ok(g), Some(e)) => ensure!(g == e, "decoded", "{} bytes decode to {} bytes, an independent decoder gives {}{}", b.len(), g.len(), e.len(), diff(g, e)),
        (Err(_), None) => {}
        (Ok(g), None) => fail!("accepted", "malformed block {} decodes to {} bytes", hex(&b[..b.len().min(60)]), g.len()),
        (Err(e), Some(x)) => fail!("refused-block", "block {} of {} bytes is refused: {e}", hex(&b[..b.len().min(60)]), x.len()),
    }
    Ok(Out::new(exp.as_ref().map_or(true, |e| !e.is_empty())).tag(if exp.is_some() { "valid" } else { "malformed" }))
}

fn main() {
    vh::main(vec![Property {
        id: "C18",
        level: "exploration",
        assumptions: &["the reference decoder follows the LZ4 block format and, as the library's, accepts a block that is empty or ends after a match; the end-of-block rules for encoders are not judged"],
        facets: vec![
            Facet { name: "lossless", rule: "byte strings put together from random parts, runs, repetitions at chosen distances and periodic parts, up to some 140 kB; non-trivial = the compressed form is shorter", cases: (150000, 2000000), batch: 50, racy: false, strategy: plain, run: run_plain }.boxed(),
            Facet { name: "large", rule: "the same with parts of up to 6 MiB (thorough: 40 MiB); non-trivial = the compressed form is shorter", cases: (3000, 40000), batch: 4, racy: false, strategy: large, run: run_plain }.boxed(),
            Facet { name: "decoder", rule: "blocks built sequence by sequence, damaged compressed data and arbitrary bytes; non-trivial = malformed or decoding to something", cases: (1500000, 30000000), batch: 5000, racy: false, strategy: raw, run: run_raw }.boxed(),
        ],
        findings: vec![],
    }])
}

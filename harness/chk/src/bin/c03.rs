//! C03: the lifecycle of the client registry.
use chk::{reg::*, sh::*, *};
use vh::prelude::*;

fn registry(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Quick { 25 } else { 100 };
    history(Mode::Registry, n).prop_map(|ops| Case { ops }).boxed()
}

/// load_client_from_snapshot of a path that the file does not have
fn absent() -> vh::R<()> {
    let dir = vh::TempDir::new();
    let sp = SnapshotPath::from_path(dir.path().join("s"));
    let hold = Stronghold::default();
    hold.create_client("there").unwrap();
    hold.commit_with_keyprovider(&sp, &provider(0)).map_err(|e| vh::Failure::new("commit", e.to_string()))?;
    let r = Stronghold::default().load_client_from_snapshot("not there", &provider(0), &sp);
    ensure!(r.is_err(), "load-absent-client", "load_client_from_snapshot returns an empty client for a path that is not in the snapshot");
    Ok(())
}

fn main() {
    vh::main(vec![Property {
        id: "C03",
        level: "exploration",
        assumptions: &["one thread", "after a refused commit the clients may or may not be in the in-memory snapshot"],
        facets: vec![
            Facet { name: "lifecycle", rule: "histories of registry, snapshot and commit calls with right, wrong and missing keys, files and clients; non-trivial = a non-empty client or snapshot was loaded back", cases: (3000, 60000), batch: 20, racy: false, strategy: registry, run }.boxed(),
        ],
        findings: vec![Finding { sig: "load-absent-client", run: absent }],
    }])
}

//! Runs craballoc's wgpu runtime against a stand-in for wgpu (C19).
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../harness/src/src.rs"]
#[allow(dead_code)]
mod src;
mod lockstep;

use engine::Harness;

pub fn harnesses(prop: &str) -> Vec<Harness> {
    let mut v: Vec<Harness> = vec![];
    if prop == "C19" {
        v.push(Harness { name: "C19/runtimes".into(), f: |s| lockstep::runtimes(s), weight: 1, exhaustive: 0 });
        v.push(Harness { name: "C19/history".into(), f: |s| lockstep::history(s), weight: 3, exhaustive: 0 });
    }
    v
}
fn main() {
    engine::main()
}

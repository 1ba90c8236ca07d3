//! Where the inputs of the contract harnesses come from.
//!
//! Every harness is written once, against `Src`, and is run
//!  * symbolically by Kani (`kani::any()` words),
//!  * natively on random / enumerated words (search for a failing input, conformance),
//!  * natively on a recorded list of words (replay of a counterexample).

pub trait Src {
    /// An arbitrary word of data.
    fn word(&mut self) -> u32;
    /// A number below `n` (`n > 0`).
    fn below(&mut self, n: u32) -> u32;
    /// The postcondition `what` must hold here.
    fn check(&mut self, cond: bool, what: &'static str);
    /// Something to tell the reader of a replay.
    fn note(&mut self, _f: impl FnOnce() -> String) {}

    fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    fn w64(&mut self) -> u64 {
        let a = self.word() as u64;
        a | (self.word() as u64) << 32
    }
    fn w128(&mut self) -> u128 {
        let a = self.w64() as u128;
        a | (self.w64() as u128) << 64
    }
}

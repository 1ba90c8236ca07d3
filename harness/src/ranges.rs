//! C09, C10: free ranges and merged updates.
use crate::src::Src;
use craballoc::range::{IsRange, Range, RangeManager};
use craballoc::runtime::{CpuRuntime, IsRuntime, SlabUpdate};
use crabslab::Array;
use std::collections::BTreeSet;

fn total(r: &Range) -> u64 {
    r.last_index as u64 + 1 - r.first_index as u64
}
fn covered(m: &RangeManager<Range>) -> BTreeSet<u32> {
    m.ranges.iter().flat_map(|r| r.first_index..=r.last_index).collect()
}

/// Small-index histories with a set model.
pub fn free_ranges<S: Src>(base: u32, span: u32, steps: u32, s: &mut S) {
    let mut m = RangeManager::<Range>::default();
    let mut model = BTreeSet::<u32>::new();
    s.check(m.is_empty() && m.len() == 0, "a new manager manages nothing");
    for _ in 0..steps {
        if s.below(3) < 2 {
            // add a range disjoint from the set
            let first = base + s.below(span);
            let mut n = 1 + if span > 8 && s.below(4) == 3 { s.below(32) } else { s.below(4) };
            while n > 0 && (first..first + n).any(|i| model.contains(&i) || i >= base + span) {
                n -= 1;
            }
            if n == 0 {
                continue;
            }
            s.note(|| format!("add {}..={}", first, first + n - 1));
            model.extend(first..first + n);
            m.add_range(Range { first_index: first, last_index: first + n - 1 });
        } else {
            let count = if span > 8 && s.below(4) == 3 { s.below(40) } else { s.below(7) };
            let got = m.remove(count);
            s.note(|| format!("remove {count} -> {got:?}"));
            match got {
                Some(r) => {
                    s.check(count > 0, "removing zero gives nothing");
                    s.check(r.last_index >= r.first_index && total(&r) == count as u64, "a removed range has exactly count indices");
                    let mut ok = true;
                    for i in r.first_index..=r.last_index {
                        ok &= model.remove(&i);
                    }
                    s.check(ok, "only free indices are handed out");
                }
                None => {
                    let longest = longest_run(&model);
                    s.check(count == 0 || longest < count as u64, "nothing is returned only when no free run is that long");
                }
            }
        }
        if steps < 100 {
            invariants(&m, &model, s);
        }
    }
    invariants(&m, &model, s);
}
fn longest_run(set: &BTreeSet<u32>) -> u64 {
    let (mut best, mut run, mut prev) = (0u64, 0u64, None);
    for &i in set {
        run = if prev == Some(i.wrapping_sub(1)) && i != 0 { run + 1 } else { 1 };
        prev = Some(i);
        best = best.max(run);
    }
    best
}
fn invariants<S: Src>(m: &RangeManager<Range>, model: &BTreeSet<u32>, s: &mut S) {
    s.check(m.ranges.iter().all(|r| r.first_index <= r.last_index), "managed ranges are not empty");
    s.check(&covered(m) == model, "the managed indices are exactly those added and not removed");
    s.check(m.ranges.iter().map(total).sum::<u64>() == model.len() as u64, "managed ranges are pairwise disjoint");
    s.check(m.len() == m.ranges.len() && m.is_empty() == m.ranges.is_empty(), "len and is_empty");
    for (i, a) in m.ranges.iter().enumerate() {
        for b in &m.ranges[i + 1..] {
            s.check(
                a.last_index as u64 + 1 != b.first_index as u64 && b.last_index as u64 + 1 != a.first_index as u64,
                "no two managed ranges touch",
            );
        }
    }
}

/// Histories over indices of any magnitude; the model is a list of maximal runs.
pub fn free_ranges_wide<S: Src>(steps: u32, s: &mut S) {
    let mut m = RangeManager::<Range>::default();
    let mut model: Vec<(u64, u64)> = vec![]; // sorted, disjoint, coalesced [lo, hi)
    let top = u32::MAX as u64 - 1; // indices 0..top
    for _ in 0..steps {
        if s.below(3) < 2 {
            let lo = match s.below(3) {
                0 => s.word() as u64,
                1 if !model.is_empty() => {
                    let k = s.below(model.len() as u32) as usize;
                    model[k].1 + s.below(2) as u64
                }
                _ => (s.below(16) as u64) << 24,
            };
            let mut hi = lo + 1 + match s.below(3) {
                0 => s.below(1 << 26) as u64,
                1 => s.word() as u64,
                _ => s.below(5) as u64,
            };
            if let Some(next) = model.iter().map(|r| r.0).filter(|&x| x >= lo).min() {
                hi = hi.min(next);
            }
            hi = hi.min(top);
            if lo >= hi || model.iter().any(|r| r.0 < hi && lo < r.1) {
                continue;
            }
            s.note(|| format!("add {}..={}", lo, hi - 1));
            m.add_range(Range { first_index: lo as u32, last_index: (hi - 1) as u32 });
            model.push((lo, hi));
        } else {
            let count = match s.below(4) {
                0 if !m.ranges.is_empty() => total(&m.ranges[s.below(m.ranges.len() as u32) as usize]) as u32,
                1 => s.word(),
                2 => s.below(1 << 26),
                _ => s.below(5),
            };
            let got = m.remove(count);
            s.note(|| format!("remove {count} -> {got:?}"));
            match got {
                Some(r) => {
                    let (lo, hi) = (r.first_index as u64, r.last_index as u64 + 1);
                    s.check(count > 0 && hi == lo + count as u64, "a removed range has exactly count indices");
                    match model.iter().position(|x| x.0 <= lo && hi <= x.1) {
                        None => s.check(false, "only free indices are handed out"),
                        Some(k) => {
                            let (a, b) = model.swap_remove(k);
                            if a < lo {
                                model.push((a, lo));
                            }
                            if hi < b {
                                model.push((hi, b));
                            }
                        }
                    }
                }
                None => s.check(
                    count == 0 || model.iter().all(|r| r.1 - r.0 < count as u64),
                    "nothing is returned only when no free run is that long",
                ),
            }
        }
        model.sort();
        let mut i = 0;
        while i + 1 < model.len() {
            if model[i].1 == model[i + 1].0 {
                model[i].1 = model[i + 1].1;
                model.remove(i + 1);
            } else {
                i += 1;
            }
        }
        let mut have: Vec<(u64, u64)> = m.ranges.iter().map(|r| (r.first_index as u64, r.last_index as u64 + 1)).collect();
        have.sort();
        s.check(have == model, "the managed ranges are the maximal free runs");
    }
}

pub fn range_laws<S: Src>(s: &mut S) {
    let gen = |s: &mut S| {
        let a = if s.flip() { s.below(12) } else { s.word().min(u32::MAX - 16) };
        let n = if s.flip() { s.below(6) } else { s.word().min(u32::MAX - 2 - a) };
        Range { first_index: a, last_index: a + n }
    };
    let r = gen(s);
    let q = gen(s);
    s.note(|| format!("{r:?} {q:?}"));
    s.check(r.len() as u64 == total(&r) && !r.is_empty(), "the length of a range is the number of its indices");
    let meet = r.first_index <= q.last_index && q.first_index <= r.last_index;
    s.check(r.intersects(&q) == meet && q.intersects(&r) == meet, "ranges intersect exactly when they share an index");
    if !meet {
        let touch = r.last_index as u64 + 1 == q.first_index as u64 || q.last_index as u64 + 1 == r.first_index as u64;
        s.check(r.should_merge_with(&q) == touch, "disjoint ranges merge exactly when they touch");
    }
    let mut u = r;
    u.union(q);
    s.check(
        u.first_index == r.first_index.min(q.first_index) && u.last_index == r.last_index.max(q.last_index),
        "the union of two ranges is the smallest range covering both",
    );
    let n = 1 + s.below(9);
    let start = s.below(1 << 20);
    let conv: Range = Array::<[u32; 3]>::new(start, n).into();
    s.check(conv.first_index == start && conv.last_index == start + 3 * n - 1, "an array converts to the range of its words");
}

/// C10
pub fn updates<S: Src>(span: u32, count: u32, s: &mut S) {
    let mut m = RangeManager::<SlabUpdate>::default();
    // words before all updates
    let skip = if span > 8 && s.below(16) == 15 { 1 + s.below(70_000) } else { 0 };
    let mut model: Vec<u32> = (0..span).map(|i| 0xA000_0000 + i).collect();
    let base = model.clone();
    let mut fresh = 1;
    for _ in 0..count {
        let at = s.below(span);
        let most = if span > 8 && s.below(8) == 7 { 64 } else { 5 };
        let n = 1 + s.below((span - at).min(most));
        let common = span > 8 && s.below(4) == 3;
        let elements: Vec<u32> = (0..n)
            .map(|_| {
                fresh += 1;
                if common {
                    [0, u32::MAX, 1, 0x8000_0000][s.below(4) as usize]
                } else {
                    fresh
                }
            })
            .collect();
        s.note(|| format!("update {}..{}: {elements:?}", skip + at, skip + at + n));
        model[at as usize..(at + n) as usize].copy_from_slice(&elements);
        m.add_range(SlabUpdate { array: Array::new(skip + at, n), elements });
        s.check(
            m.ranges.iter().all(|u| u.elements.len() == u.array.len()),
            "each managed update carries as many elements as its array has words",
        );
        // looked at after every update, of many updates now and then
        if count > 100 && s.below(40) > 0 {
            continue;
        }
        for (i, a) in m.ranges.iter().enumerate() {
            for b in &m.ranges[i + 1..] {
                let meet = a.array.index < b.array.index + b.array.len && b.array.index < a.array.index + a.array.len;
                s.check(!meet, "managed updates are pairwise disjoint");
                s.check(!a.intersects(b) && !b.intersects(a), "disjoint updates do not intersect");
            }
        }
        let apply = |us: Vec<SlabUpdate>| {
            let rt = CpuRuntime;
            let buf = rt.buffer_create((skip + span) as usize, None, ());
            rt.buffer_write([SlabUpdate { array: Array::new(skip, span), elements: base.clone() }].into_iter(), &buf);
            rt.buffer_write(us.into_iter(), &buf);
            let v = buf.as_vec()[skip as usize..].to_vec();
            v
        };
        s.check(apply(m.ranges.clone()) == model, "writing the managed updates equals writing every update in order");
        let mut rev = m.ranges.clone();
        rev.reverse();
        s.check(apply(rev) == model, "the managed updates can be written in any order");
    }
}

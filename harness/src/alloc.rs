//! C11 - C17: histories of the slab allocator against an independent model.
use crate::gen::Gen;
use crate::src::Src;
use craballoc::prelude::*;
use crabslab::{Array, Id, SlabItem};
use std::collections::BTreeSet;

/// Which property's obligations are checked (the model is always kept).
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum P {
    C11,
    C12,
    C13,
    C14,
    C15,
    C17,
}

pub trait Item: Gen + Clone + Default + Send + Sync + 'static {}
impl<T: Gen + Clone + Default + Send + Sync + 'static> Item for T {}

type Alloc = SlabAllocator<CpuRuntime>;

struct Ctx {
    p: P,
    slab: Alloc,
    other: Alloc,
    /// ids that must be reported as updated
    queued: BTreeSet<usize>,
    /// the few kinds of values this history is about; any, if empty
    kinds: Vec<u32>,
}

impl Ctx {
    /// what the slab says is queued
    fn told<S: Src>(&self, s: &mut S) -> BTreeSet<usize> {
        if self.slab.has_queued_updates() {
            let ids: BTreeSet<usize> = self.slab.get_updated_source_ids().into_iter().collect();
            s.check(!ids.is_empty(), "queued updates have sources");
            ids
        } else {
            BTreeSet::new()
        }
    }
}

/// One allocation, all of its handles, and its model.
trait Obj<S: Src> {
    fn source(&self) -> usize;
    /// start and number of words
    fn words(&self) -> (u32, u32);
    fn alive(&self) -> bool;
    fn act(&mut self, cx: &mut Ctx, s: &mut S);
    fn drop_one(&mut self, cx: &mut Ctx, s: &mut S);
    fn drop_all(&mut self, cx: &mut Ctx, s: &mut S);
    /// the handles agree with the model
    fn agree(&self, s: &mut S);
    /// the committed words decode to the latest value
    fn committed(&self, buffer: &[u32], s: &mut S);
    fn dirty(&self) -> bool;
    fn set_clean(&mut self);
}

struct Val<T> {
    source: usize,
    id: Id<T>,
    hybrids: Vec<Hybrid<T>>,
    gpus: Vec<Gpu<T>>,
    weaks: Vec<WeakHybrid<T>>,
    weak_gpus: Vec<WeakGpu<T>>,
    cpu: T,
    gpu: T,
    /// Values it had before, to be set again.
    seen: Vec<T>,
    dirty: bool,
}

impl<T: Item> Val<T> {
    fn new<S: Src>(cx: &mut Ctx, s: &mut S) -> Self {
        let v = T::gen(s);
        let gpu_only = s.below(4) == 3;
        let slab = if s.flip() { &cx.slab } else { &cx.other };
        let (mut hybrids, mut gpus) = (vec![], vec![]);
        let (source, id);
        if gpu_only {
            let g = Gpu::new(slab, v.clone());
            source = g.notifier_index();
            id = g.id();
            gpus.push(g);
        } else {
            let h = slab.new_value(v.clone());
            source = h.notifier_index();
            id = h.id();
            hybrids.push(h);
        }
        s.note(|| format!("new {} of {} words -> source {source} at {}", if gpu_only { "Gpu" } else { "Hybrid" }, T::WANT, id.inner()));
        cx.queued.insert(source);
        Val { source, id, hybrids, gpus, weaks: vec![], weak_gpus: vec![], cpu: v.clone(), seen: vec![v.clone()], gpu: v, dirty: true }
    }
    fn strong(&self) -> usize {
        self.hybrids.len() + self.gpus.len()
    }
    fn touched(&mut self, cx: &mut Ctx) {
        self.dirty = true;
        cx.queued.insert(self.source);
    }
}

/// A value: one of those seen before, or another.
fn some<T: Item, S: Src>(seen: &mut Vec<T>, s: &mut S) -> T {
    if !seen.is_empty() && s.below(3) == 2 {
        return pick(seen, s).clone();
    }
    let v = T::gen(s);
    if seen.len() < 6 {
        seen.push(v.clone());
    } else {
        let i = s.below(6) as usize;
        seen[i] = v.clone();
    }
    v
}
fn pick<'a, X, S: Src>(v: &'a [X], s: &mut S) -> &'a X {
    &v[s.below(v.len() as u32) as usize]
}

impl<T: Item, S: Src> Obj<S> for Val<T> {
    fn source(&self) -> usize {
        self.source
    }
    fn words(&self) -> (u32, u32) {
        (self.id.inner(), T::WANT as u32)
    }
    fn alive(&self) -> bool {
        self.strong() > 0
    }
    fn dirty(&self) -> bool {
        self.dirty
    }
    fn set_clean(&mut self) {
        self.dirty = false;
    }
    fn act(&mut self, cx: &mut Ctx, s: &mut S) {
        let c15 = cx.p == P::C15;
        let k = self.source;
        match s.below(9) {
            0 if !self.hybrids.is_empty() => {
                let v = some(&mut self.seen, s);
                s.note(|| format!("set source {k}"));
                pick(&self.hybrids, s).set(v.clone());
                self.cpu = v.clone();
                self.gpu = v;
                self.touched(cx);
            }
            1 if !self.hybrids.is_empty() => {
                let v = some(&mut self.seen, s);
                s.note(|| format!("modify source {k}"));
                let (w, tag) = (v.clone(), s.word());
                let cpu = self.cpu.clone();
                let (r, same) = pick(&self.hybrids, s).modify(move |t| {
                    let same = t.same(&cpu);
                    *t = w;
                    (tag, same)
                });
                if c15 {
                    s.check(r == tag, "modify returns its closure's result");
                    s.check(same, "modify sees the current value");
                }
                self.cpu = v.clone();
                self.gpu = v;
                self.touched(cx);
            }
            2 if !self.hybrids.is_empty() => {
                let v = some(&mut self.seen, s);
                let mutate = s.flip();
                s.note(|| format!("guard source {k} mutated: {mutate}"));
                let times = if mutate { s.below(3) } else { 0 };
                let told = if c15 { cx.told(s) } else { BTreeSet::new() };
                {
                    let h = &self.hybrids[s.below(self.hybrids.len() as u32) as usize];
                    let mut g = h.lock();
                    if c15 {
                        s.check((*g).same(&self.cpu), "a guard sees the current value");
                    }
                    for _ in 0..times {
                        let u = some(&mut self.seen, s);
                        *g = u.clone();
                        if c15 {
                            s.check((*g).same(&u), "a guard sees what was written through it");
                        }
                    }
                    if mutate {
                        *g = v.clone();
                        if c15 {
                            s.check((*g).same(&v), "a guard sees what was written through it");
                        }
                    }
                }
                if c15 {
                    let now = cx.told(s);
                    s.check(if mutate { now.contains(&k) } else { now == told }, "a guard queues an update exactly when it is mutated");
                }
                if mutate {
                    self.cpu = v.clone();
                    self.gpu = v;
                    self.touched(cx);
                }
            }
            3 if self.strong() < 4 && self.alive_() => {
                s.note(|| format!("clone source {k}"));
                if !self.hybrids.is_empty() && (self.gpus.is_empty() || s.flip()) {
                    let h = pick(&self.hybrids, s).clone();
                    self.hybrids.push(h);
                } else {
                    let g = pick(&self.gpus, s).clone();
                    self.gpus.push(g);
                }
            }
            4 if !self.hybrids.is_empty() => {
                s.note(|| format!("weaken source {k}"));
                let h = pick(&self.hybrids, s);
                let w = WeakHybrid::from_hybrid(h);
                if s.flip() {
                    self.weak_gpus.push(w.weak_gpu().clone());
                }
                self.weaks.push(w.clone());
            }
            5 if !self.weaks.is_empty() => {
                let w = pick(&self.weaks, s);
                let up = w.upgrade();
                s.note(|| format!("upgrade source {k}: {}", up.is_some()));
                if c15 {
                    s.check(up.is_some() == !self.hybrids.is_empty(), "a weak handle upgrades exactly while a strong hybrid handle exists");
                }
                match up {
                    Some(h) if self.strong() < 4 => self.hybrids.push(h),
                    Some(h) => {
                        drop(h);
                        cx.queued.insert(k);
                    }
                    None => {}
                }
            }
            6 if !self.weak_gpus.is_empty() => {
                let up = pick(&self.weak_gpus, s).upgrade();
                s.note(|| format!("upgrade gpu source {k}: {}", up.is_some()));
                if c15 {
                    s.check(up.is_some() == self.alive_(), "a weak gpu handle upgrades exactly while a strong handle exists");
                }
                match up {
                    Some(g) if self.strong() < 4 => self.gpus.push(g),
                    Some(g) => {
                        drop(g);
                        cx.queued.insert(k);
                    }
                    None => {}
                }
            }
            7 if !self.gpus.is_empty() => {
                let v = some(&mut self.seen, s);
                s.note(|| format!("gpu set source {k}"));
                pick(&self.gpus, s).set(v.clone());
                self.gpu = v;
                self.touched(cx);
            }
            8 if !self.hybrids.is_empty() => {
                s.note(|| format!("into_gpu_only source {k}"));
                let i = s.below(self.hybrids.len() as u32) as usize;
                let h = self.hybrids.swap_remove(i);
                self.gpus.push(h.into_gpu_only());
            }
            _ => {}
        }
    }
    fn drop_one(&mut self, cx: &mut Ctx, s: &mut S) {
        if !self.alive_() {
            return;
        }
        let i = s.below(self.strong() as u32) as usize;
        let k = self.source;
        s.note(|| format!("drop handle {i} of source {k}"));
        if i < self.hybrids.len() {
            drop(self.hybrids.swap_remove(i));
        } else {
            drop(self.gpus.swap_remove(i - self.hybrids.len()));
        }
        cx.queued.insert(k);
    }
    fn drop_all(&mut self, cx: &mut Ctx, s: &mut S) {
        if self.alive_() {
            let k = self.source;
            s.note(|| format!("drop all handles of source {k}"));
            cx.queued.insert(k);
        }
        self.hybrids.clear();
        self.gpus.clear();
    }
    fn agree(&self, s: &mut S) {
        for h in &self.hybrids {
            s.check(h.get().same(&self.cpu), "every handle gets the shared value");
            s.check(h.id() == self.id && h.notifier_index() == self.source, "all handles share one id");
            s.check(h.ref_count() == self.strong(), "ref_count is the number of handles keeping the value alive");
        }
        for g in &self.gpus {
            s.check(g.id() == self.id && g.notifier_index() == self.source, "all handles share one id");
        }
        for w in &self.weaks {
            s.check(w.strong_count() == self.strong(), "strong_count is the number of handles keeping the value alive");
            s.check(w.has_external_references() == self.alive_(), "external references exist exactly while a strong handle exists");
            s.check(w.id() == self.id && w.notifier_index() == self.source, "weak handles share the id");
        }
        for w in &self.weak_gpus {
            s.check(w.notifier_index() == self.source, "weak handles share the id");
        }
    }
    fn committed(&self, buffer: &[u32], s: &mut S) {
        let at = self.id.index();
        if T::WANT == 0 {
            return;
        }
        let fits = at + T::WANT <= buffer.len();
        s.check(fits, "a live value lies inside the committed buffer");
        if fits {
            s.check(T::read_slab(at, buffer).same(&self.gpu), "the committed words hold the latest value");
        }
    }
}
impl<T> Val<T> {
    fn alive_(&self) -> bool {
        !self.hybrids.is_empty() || !self.gpus.is_empty()
    }
}

struct Arr<T> {
    source: usize,
    array: Array<T>,
    hybrids: Vec<HybridArray<T>>,
    gpus: Vec<GpuArray<T>>,
    cpu: Vec<T>,
    gpu: Vec<T>,
    /// Values elements had before, to be set again.
    seen: Vec<T>,
    dirty: bool,
}
impl<T: Item> Arr<T> {
    fn new<S: Src>(cx: &mut Ctx, s: &mut S) -> Self {
        let n = s.below(5);
        let v: Vec<T> = (0..n).map(|_| T::gen(s)).collect();
        let gpu_only = s.below(4) == 3;
        let slab = if s.flip() { &cx.slab } else { &cx.other };
        let (mut hybrids, mut gpus) = (vec![], vec![]);
        let (source, array);
        if gpu_only {
            let g = GpuArray::new(slab, &v);
            source = g.notifier_index();
            array = g.array();
            gpus.push(g);
        } else {
            let h = slab.new_array(v.clone());
            source = h.notifier_index();
            array = h.array();
            hybrids.push(h);
        }
        s.note(|| {
            format!("new {} {n} x {} words -> source {source} at {}", if gpu_only { "GpuArray" } else { "HybridArray" }, T::WANT, array.starting_index())
        });
        cx.queued.insert(source);
        if cx.p == P::C11 {
            s.check(array.len() == n as usize, "an array handle has as many elements as values");
        }
        Arr { source, array, hybrids, gpus, cpu: v.clone(), seen: v.clone(), gpu: v, dirty: true }
    }
    fn strong(&self) -> usize {
        self.hybrids.len() + self.gpus.len()
    }
}
impl<T: Item, S: Src> Obj<S> for Arr<T> {
    fn source(&self) -> usize {
        self.source
    }
    fn words(&self) -> (u32, u32) {
        (self.array.index, (self.gpu.len() * T::WANT) as u32)
    }
    fn alive(&self) -> bool {
        self.strong() > 0
    }
    fn dirty(&self) -> bool {
        self.dirty
    }
    fn set_clean(&mut self) {
        self.dirty = false;
    }
    fn act(&mut self, cx: &mut Ctx, s: &mut S) {
        let c15 = cx.p == P::C15;
        let k = self.source;
        let n = self.cpu.len();
        match s.below(7) {
            0 if !self.hybrids.is_empty() => {
                let v = some(&mut self.seen, s);
                let i = s.below(n as u32 + 2) as usize;
                s.note(|| format!("set_item {i} of source {k}"));
                let told = if c15 { cx.told(s) } else { BTreeSet::new() };
                let old = pick(&self.hybrids, s).set_item(i, v.clone());
                if c15 {
                    s.check(old.is_some() == (i < n), "out-of-range element access returns nothing");
                    let same = i < n || cx.told(s) == told;
                    s.check(same, "out-of-range element access changes nothing");
                    if let Some(o) = &old {
                        if i < n {
                            s.check(o.same(&self.cpu[i]), "set_item returns the previous element");
                        }
                    }
                }
                if i < n {
                    self.cpu[i] = v.clone();
                    self.gpu[i] = v;
                    self.dirty = true;
                    cx.queued.insert(k);
                }
            }
            1 if !self.hybrids.is_empty() => {
                let v = some(&mut self.seen, s);
                let i = s.below(n as u32 + 2) as usize;
                s.note(|| format!("modify element {i} of source {k}"));
                let tag = s.word();
                let told = if c15 { cx.told(s) } else { BTreeSet::new() };
                let (w, cur) = (v.clone(), self.cpu.get(i).cloned());
                let r = pick(&self.hybrids, s).modify(i, move |t| {
                    let same = cur.map(|c| c.same(t)).unwrap_or(false);
                    *t = w;
                    (tag, same)
                });
                if c15 {
                    s.check(r.is_some() == (i < n), "out-of-range element access returns nothing");
                    let same = i < n || cx.told(s) == told;
                    s.check(same, "out-of-range element access changes nothing");
                    if let Some((r, same)) = r {
                        s.check(r == tag, "modify returns its closure's result");
                        s.check(same, "modify sees the current element");
                    }
                }
                if i < n {
                    self.cpu[i] = v.clone();
                    self.gpu[i] = v;
                    self.dirty = true;
                    cx.queued.insert(k);
                }
            }
            2 if self.strong() > 0 && self.strong() < 4 => {
                s.note(|| format!("clone source {k}"));
                if !self.hybrids.is_empty() && (self.gpus.is_empty() || s.flip()) {
                    let h = pick(&self.hybrids, s).clone();
                    self.hybrids.push(h);
                } else {
                    let g = pick(&self.gpus, s).clone();
                    self.gpus.push(g);
                }
            }
            3 if !self.gpus.is_empty() => {
                let v = some(&mut self.seen, s);
                let i = s.below(n as u32 + 2) as usize;
                s.note(|| format!("gpu set_item {i} of source {k}"));
                let told = if c15 { cx.told(s) } else { BTreeSet::new() };
                pick(&self.gpus, s).set_item(i, &v);
                if c15 {
                    let same = i < n || cx.told(s) == told;
                    s.check(same, "out-of-range element access changes nothing");
                }
                if i < n {
                    self.gpu[i] = v;
                    self.dirty = true;
                    cx.queued.insert(k);
                }
            }
            4 if !self.hybrids.is_empty() => {
                s.note(|| format!("into_gpu_only source {k}"));
                let i = s.below(self.hybrids.len() as u32) as usize;
                let h = self.hybrids.swap_remove(i);
                self.gpus.push(h.into_gpu_only());
            }
            _ => {}
        }
    }
    fn drop_one(&mut self, cx: &mut Ctx, s: &mut S) {
        if self.strong() == 0 {
            return;
        }
        let i = s.below(self.strong() as u32) as usize;
        let k = self.source;
        s.note(|| format!("drop handle {i} of source {k}"));
        if i < self.hybrids.len() {
            drop(self.hybrids.swap_remove(i));
        } else {
            drop(self.gpus.swap_remove(i - self.hybrids.len()));
        }
        cx.queued.insert(k);
    }
    fn drop_all(&mut self, cx: &mut Ctx, s: &mut S) {
        if self.strong() > 0 {
            let k = self.source;
            s.note(|| format!("drop all handles of source {k}"));
            cx.queued.insert(k);
        }
        self.hybrids.clear();
        self.gpus.clear();
    }
    fn agree(&self, s: &mut S) {
        let n = self.cpu.len();
        for h in &self.hybrids {
            s.check(h.len() == n && h.is_empty() == (n == 0), "an array handle has as many elements as values");
            let all = h.get_vec();
            s.check(all.len() == n && all.iter().zip(&self.cpu).all(|(a, b)| a.same(b)), "every array handle gets the shared values");
            for i in 0..n + 2 {
                match h.get(i) {
                    Some(t) => s.check(i < n && t.same(&self.cpu[i]), "every array handle gets the shared elements"),
                    None => s.check(i >= n, "only out-of-range elements are missing"),
                }
                s.check(
                    if i < n {
                        h.get_id(i).inner() == self.array.index + (i * T::WANT) as u32
                    } else {
                        h.get_id(i).is_none()
                    },
                    "element ids follow the array",
                );
            }
            s.check(h.array() == self.array && h.notifier_index() == self.source, "all handles share one array");
            s.check(h.ref_count() == self.strong(), "ref_count is the number of handles keeping the array alive");
        }
        for g in &self.gpus {
            s.check(g.array() == self.array && g.notifier_index() == self.source && g.len() == n && g.is_empty() == (n == 0), "all handles share one array");
        }
    }
    fn committed(&self, buffer: &[u32], s: &mut S) {
        if T::WANT == 0 {
            return;
        }
        for (i, v) in self.gpu.iter().enumerate() {
            let at = self.array.starting_index() + i * T::WANT;
            let fits = at + T::WANT <= buffer.len();
            s.check(fits, "a live array lies inside the committed buffer");
            if fits {
                s.check(T::read_slab(at, buffer).same(v), "the committed words hold the latest elements");
            }
        }
    }
}

const KINDS: u32 = 27;
fn new_obj<S: Src + 'static>(cx: &mut Ctx, small: bool, s: &mut S) -> Box<dyn Obj<S>> {
    if small {
        return match s.below(4) {
            0 => Box::new(Val::<u32>::new(cx, s)),
            1 => Box::new(Val::<(u8, u64)>::new(cx, s)),
            2 => Box::new(Arr::<u32>::new(cx, s)),
            _ => Box::new(Arr::<[u32; 2]>::new(cx, s)),
        };
    }
    let kind = if cx.kinds.is_empty() { s.below(KINDS) } else { *pick(&cx.kinds, s) };
    match kind {
        0 => Box::new(Val::<u32>::new(cx, s)),
        1 => Box::new(Val::<(u8, u64)>::new(cx, s)),
        2 => Box::new(Val::<[f32; 5]>::new(cx, s)),
        3 => Box::new(Val::<core::marker::PhantomData<u8>>::new(cx, s)),
        4 => Box::new(Val::<Option<u64>>::new(cx, s)),
        5 => Box::new(Val::<crate::derived::EMixed>::new(cx, s)),
        6 => Box::new(Val::<u64>::new(cx, s)),
        7 => Box::new(Arr::<u32>::new(cx, s)),
        8 => Box::new(Arr::<[u32; 2]>::new(cx, s)),
        9 => Box::new(Arr::<core::marker::PhantomData<u8>>::new(cx, s)),
        10 => Box::new(Arr::<Option<f32>>::new(cx, s)),
        11 => Box::new(Arr::<crate::derived::S2>::new(cx, s)),
        // the widths of vectors and matrices, and some that are not
        12 => Box::new(Val::<glam::Vec4>::new(cx, s)),
        13 => Box::new(Val::<u128>::new(cx, s)),
        14 => Box::new(Val::<glam::Mat4>::new(cx, s)),
        15 => Box::new(Val::<[u32; 8]>::new(cx, s)),
        16 => Box::new(Val::<[u64; 6]>::new(cx, s)),
        17 => Box::new(Val::<(u32, u64, u32, u64)>::new(cx, s)),
        18 => Box::new(Val::<([u32; 7], bool, [u32; 9])>::new(cx, s)),
        19 => Box::new(Val::<[u32; 32]>::new(cx, s)),
        20 => Box::new(Arr::<glam::Vec4>::new(cx, s)),
        21 => Box::new(Arr::<glam::Mat4>::new(cx, s)),
        22 => Box::new(Arr::<glam::Vec3>::new(cx, s)),
        23 => Box::new(Arr::<(u32, [u64; 4])>::new(cx, s)),
        24 => Box::new(Val::<glam::Vec3>::new(cx, s)),
        25 => Box::new(Val::<bool>::new(cx, s)),
        _ => Box::new(Arr::<u8>::new(cx, s)),
    }
}

struct Handle {
    buf: SlabBuffer<VecSlab>,
    /// number of the commit that created the buffer
    created: usize,
}
fn ptr(b: &SlabBuffer<VecSlab>) -> *const VecSlab {
    &**b
}

/// `small`: few kinds of values; `aging`: now and then thousands of commits go by.
pub fn history<S: Src + 'static>(p: P, max_steps: u32, small: bool, aging: bool, s: &mut S) {
    let slab = if s.flip() { SlabAllocator::new(CpuRuntime, ()) } else { SlabAllocator::new_with_label(CpuRuntime, (), Some("a slab")) };
    let mut cx = Ctx { p, other: slab.clone(), slab, queued: BTreeSet::new(), kinds: vec![] };
    if !small && s.below(3) > 0 {
        // few kinds, so that what one leaves behind suits another
        for _ in 0..2 + s.below(3) {
            let k = s.below(KINDS);
            cx.kinds.push(k);
        }
    }
    let mut objs: Vec<Box<dyn Obj<S>>> = vec![];
    // words of allocations that are gone but not committed yet
    let mut limbo: Vec<(u32, u32, usize)> = vec![];
    let mut free: BTreeSet<u32> = BTreeSet::new();
    let mut sources: BTreeSet<usize> = BTreeSet::new();
    let mut prev: Vec<u32> = vec![];
    let mut commits = 0usize;
    let mut current: Option<Handle> = None; // keeps the current buffer's address alive
    let mut handles: Vec<Handle> = vec![];
    let steps = s.below(max_steps + 1);
    if p == P::C14 {
        s.check(cx.slab.get_buffer().is_none(), "there is no buffer before the first commit");
    }
    let mut step = 0;
    while step <= steps {
        step += 1;
        let last = step > steps;
        // the last step is always a commit
        let op = if last { 9 } else { s.below(12) };
        match op {
            0..=2 => {
                if objs.len() > 7 {
                    continue;
                }
                let o = new_obj(&mut cx, small, s);
                let (at, n) = o.words();
                if p == P::C17 {
                    s.check(sources.insert(o.source()), "source ids are unique");
                }
                let range = at as u64..at as u64 + n as u64;
                if p == P::C11 && n > 0 {
                    for other in &objs {
                        let (b, m) = other.words();
                        s.check(m == 0 || (b as u64) >= range.end || b as u64 + m as u64 <= range.start, "live values never overlap");
                    }
                    for &(b, m, _) in &limbo {
                        s.check(
                            m == 0 || (b as u64) >= range.end || b as u64 + m as u64 <= range.start,
                            "words of a dropped value are not handed out before the next commit",
                        );
                    }
                }
                if n > 0 && range.end < 1 << 20 {
                    if p == P::C12 {
                        let fits = longest_run(&free) >= n as u64;
                        let inside = range.clone().all(|i| free.contains(&(i as u32)));
                        s.check(!fits || inside, "a value that fits in a free range is placed in free words");
                    }
                    for i in range {
                        free.remove(&(i as u32));
                    }
                }
                objs.push(o);
            }
            3..=5 if !objs.is_empty() => {
                let i = s.below(objs.len() as u32) as usize;
                objs[i].act(&mut cx, s);
            }
            6 if !objs.is_empty() => {
                let i = s.below(objs.len() as u32) as usize;
                let was = objs[i].alive();
                objs[i].drop_one(&mut cx, s);
                if was && !objs[i].alive() {
                    let (a, n) = objs[i].words();
                    limbo.push((a, n, objs[i].source()));
                }
            }
            7 if !objs.is_empty() => {
                let i = s.below(objs.len() as u32) as usize;
                let was = objs[i].alive();
                objs[i].drop_all(&mut cx, s);
                if was {
                    let (a, n) = objs[i].words();
                    limbo.push((a, n, objs[i].source()));
                }
            }
            8 => {
                s.note(|| "query updated sources".into());
                let ids: BTreeSet<usize> = cx.slab.get_updated_source_ids().into_iter().collect();
                if p == P::C17 {
                    s.check(ids == cx.queued, "the updated source ids are exactly those changed since the last commit");
                }
            }
            9 | 10 => {
                s.note(|| "commit".into());
                let a = if s.flip() { &cx.slab } else { &cx.other };
                let buf = if s.below(4) == 3 { a.upkeep() } else { a.commit() };
                commits += 1;
                let now: Vec<u32> = buf.as_vec().clone();
                s.note(|| format!("  buffer {} words", now.len()));
                let replaced = current.as_ref().map(|c| ptr(&c.buf) != ptr(&buf)).unwrap_or(true);
                let created = if replaced { commits } else { current.as_ref().unwrap().created };
                if p == P::C14 {
                    if replaced && current.is_some() {
                        s.check(now.len() > prev.len(), "the buffer is replaced only to grow");
                    }
                    if !replaced {
                        s.check(now.len() == prev.len(), "a commit without growth keeps using the same buffer");
                    }
                    s.check(now.len() >= prev.len(), "the buffer never shrinks");
                    let got = cx.slab.get_buffer();
                    s.check(got.map(|g| ptr(&g) == ptr(&buf)).unwrap_or(false), "commit returns the buffer in use");
                }
                // what was not updated keeps its content
                if p == P::C13 || p == P::C14 {
                    let mut may = BTreeSet::new();
                    for o in &objs {
                        if o.dirty() {
                            let (a, n) = o.words();
                            may.extend((a as u64..a as u64 + n as u64).map(|i| i as usize));
                        }
                    }
                    for &(a, n, _) in &limbo {
                        may.extend((a as u64..a as u64 + n as u64).map(|i| i as usize));
                    }
                    for (i, w) in prev.iter().enumerate() {
                        if !may.contains(&i) {
                            s.check(now.get(i) == Some(w), "words of no updated value keep their previous content");
                        }
                    }
                }
                if p == P::C13 {
                    for o in objs.iter().filter(|o| o.alive()) {
                        o.committed(&now, s);
                    }
                }
                if p == P::C11 {
                    for o in objs.iter().filter(|o| o.alive()) {
                        let (a, n) = o.words();
                        s.check(n == 0 || a as u64 + n as u64 <= now.len() as u64, "live values lie inside the committed buffer");
                    }
                }
                for o in objs.iter_mut() {
                    o.set_clean();
                }
                // dropped words become free
                for (a, n, _) in limbo.drain(..) {
                    if n > 0 && (a as u64 + n as u64) < 1 << 20 {
                        free.extend(a..a + n);
                    }
                }
                cx.queued.clear();
                prev = now;
                if handles.len() < 4 || s.flip() {
                    handles.push(Handle { buf: buf.clone(), created });
                    if s.flip() {
                        // a copy of any handle, valid or not, is as old as that handle
                        let h = &handles[s.below(handles.len() as u32) as usize];
                        let copy = Handle { buf: h.buf.clone(), created: h.created };
                        handles.push(copy);
                    }
                    while handles.len() > 6 {
                        handles.remove(0);
                    }
                }
                if p == P::C17 && s.below(4) == 0 {
                    s.note(|| "commit again".into());
                    let again = cx.slab.commit();
                    commits += 1;
                    s.check(*again.as_vec() == prev, "a commit with nothing queued leaves the buffer unchanged");
                    s.check(ptr(&again) == ptr(&buf), "a commit with nothing queued keeps the buffer");
                }
                current = Some(Handle { buf, created });
                objs.retain(|o| o.alive() || o.words().1 == 0);
                if aging && !last && s.below(48) == 47 {
                    commits += age(&cx.slab, &mut sources, p, s);
                }
            }
            11 => {
                if s.flip() {
                    s.note(|| "defrag".into());
                    cx.slab.defrag();
                } else if !handles.is_empty() {
                    let i = s.below(handles.len() as u32) as usize;
                    let c = current.as_ref().unwrap();
                    let h = &mut handles[i];
                    let stale = h.created != c.created;
                    let was = ptr(&h.buf);
                    let r = if s.below(4) == 3 { h.buf.synchronize() } else { h.buf.update_if_invalid() };
                    s.note(|| format!("update buffer handle from commit {}: {r}", h.created));
                    if p == P::C14 {
                        s.check(r == stale, "updating returns true exactly for an invalid handle");
                        s.check(ptr(&h.buf) == if stale { ptr(&c.buf) } else { was }, "an updated handle is the buffer in use, a valid one stays");
                        s.check(h.buf.is_valid(), "an updated handle is valid");
                    }
                    h.created = c.created;
                }
            }
            _ => {}
        }
        if p == P::C14 {
            if let Some(c) = &current {
                let mut all: Vec<&Handle> = handles.iter().collect();
                all.push(c);
                for h in all {
                    let valid = h.created == c.created;
                    s.check(h.buf.is_valid() == valid && h.buf.is_invalid() == !valid, "a handle is invalid exactly when a later commit replaced the buffer");
                    s.check(h.buf.is_new_this_commit() == (h.created == commits), "a handle is new exactly during the commit that created it");
                    s.check(h.buf.is_new_this_upkeep() == (h.created == commits), "a handle is new exactly during the commit that created it");
                    s.check(h.buf.creation_time() == c.buf.creation_time() || h.created != c.created, "handles of one buffer have one age");
                    let k = h.buf.clone();
                    s.check(k.is_valid() == valid && ptr(&k) == ptr(&h.buf), "a cloned handle is the same buffer");
                    s.check(k.is_new_this_commit() == (h.created == commits), "a cloned handle is as old as the handle");
                }
            }
        }
        if p == P::C15 {
            for o in &objs {
                o.agree(s);
            }
        }
        if p == P::C17 {
            s.check(cx.slab.has_queued_updates() == !cx.queued.is_empty(), "queued updates are reported exactly when something changed since the last commit");
        }
    }
}
/// A long life that leaves nothing behind but its count: commits, and values without words that come and go.
/// Returns the number of commits.
fn age<S: Src>(slab: &Alloc, sources: &mut BTreeSet<usize>, p: P, s: &mut S) -> usize {
    let n = match s.below(12) {
        0 => 66_000 + s.below(8),
        1 => 4_000 + s.below(200),
        _ => 1 + s.below(600),
    };
    let values = s.below(3);
    s.note(|| format!("{n} times {}commit", ["", "a value without words comes and goes, ", "four values without words come and go, "][values as usize]));
    for _ in 0..n {
        for _ in 0..values * values {
            let v = slab.new_value(core::marker::PhantomData::<u8>);
            if p == P::C17 {
                s.check(sources.insert(v.notifier_index()), "source ids are unique");
            }
        }
        slab.commit();
    }
    n as usize
}

fn longest_run(set: &BTreeSet<u32>) -> u64 {
    let (mut best, mut run, mut prev) = (0u64, 0u64, None);
    for &i in set {
        run = match prev {
            Some(p) if p + 1 == i => run + 1,
            _ => 1,
        };
        prev = Some(i);
        best = best.max(run);
    }
    best
}

/// Growth over many reallocations, with old handles kept.
pub fn growth<S: Src>(p: P, s: &mut S) {
    let slab = SlabAllocator::new(CpuRuntime, ());
    let mut live: Vec<(HybridArray<u32>, Vec<u32>)> = vec![];
    let rounds = 1 + s.below(5);
    let mut before: Vec<u32> = vec![];
    let mut buffers: Vec<SlabBuffer<VecSlab>> = vec![];
    for round in 0..rounds {
        for _ in 0..s.below(3) {
            let n = match s.below(3) {
                0 => s.below(4),
                1 => s.below(40),
                _ => 1u32 << s.below(9),
            };
            let v: Vec<u32> = if s.below(64) == 63 { large(s) } else { (0..n).map(|_| s.word()).collect() };
            let n = v.len();
            s.note(|| format!("new array of {n}"));
            live.push((slab.new_array(v.clone()), v));
        }
        let fresh: Vec<usize> = (0..live.len()).filter(|_| s.below(4) == 0).collect();
        for i in fresh {
            let n = live[i].1.len() as u32;
            if n > 0 {
                let times = if s.below(6) == 0 { s.below(200) } else { 1 };
                s.note(|| format!("array {i} is set {times} times"));
                for _ in 0..times {
                    let k = s.below(n) as usize;
                    let w = s.word();
                    live[i].0.set_item(k, w);
                    live[i].1[k] = w;
                }
            }
        }
        let buf = slab.commit();
        let now = buf.as_vec().clone();
        s.note(|| format!("commit: {} words", now.len()));
        s.check(now.len() >= before.len(), "the buffer never shrinks");
        if p == P::C14 {
            let grown = round == 0 || now.len() > before.len();
            if let Some(b) = buffers.last() {
                s.check((ptr(b) == ptr(&buf)) == !grown, "a commit without growth keeps using the same buffer");
            }
            s.check(buf.is_valid() && buf.is_new_this_commit() == grown, "a handle is new exactly during the commit that created it");
            for b in buffers.iter_mut() {
                let stale = ptr(b) != ptr(&buf);
                s.check(b.is_invalid() == stale && b.is_valid() != stale, "a handle is invalid exactly when a later commit replaced the buffer");
                s.check(stale || b.is_new_this_commit() == grown, "a handle is new exactly during the commit that created it");
                if s.flip() {
                    s.check(b.update_if_invalid() == stale, "updating returns true exactly for an invalid handle");
                    s.check(ptr(b) == ptr(&buf) && b.is_valid(), "an updated handle is the buffer in use, a valid one stays");
                }
            }
            buffers.push(buf.clone());
        }
        for (h, v) in &live {
            let a = h.array();
            let (lo, hi) = (a.index as usize, a.index as usize + v.len());
            if v.is_empty() {
                continue;
            }
            s.check(hi <= now.len(), "live arrays lie inside the committed buffer");
            if hi <= now.len() {
                s.check(&now[lo..hi] == &v[..], "the committed buffer holds every live array, also after growing");
            }
        }
        before = now;
    }
}

/// The CPU runtime by itself: creating, copying and writing buffers of any length.
pub fn runtime<S: Src>(s: &mut S) {
    let rt = CpuRuntime;
    let n = s.below(13) as usize;
    let from = rt.buffer_create(n, if s.flip() { Some("from") } else { None }, ());
    s.check(from.as_vec().len() == n && from.as_vec().iter().all(|w| *w == 0), "a new buffer has its capacity in zero words");
    let mut model = vec![0u32; n];
    for _ in 0..1 + s.below(2) {
        let mut ups = vec![];
        for _ in 0..s.below(4) {
            let at = s.below(n as u32 + 1);
            let len = s.below(n as u32 - at + 1);
            let elements: Vec<u32> = (0..len).map(|_| s.word()).collect();
            s.note(|| format!("write {len} words at {at} of {n}"));
            model[at as usize..(at + len) as usize].copy_from_slice(&elements);
            ups.push(SlabUpdate { array: Array::new(at, len), elements });
        }
        rt.buffer_write(ups.into_iter(), &from);
        s.check(*from.as_vec() == model, "writing updates puts exactly their words in place");
    }
    let m = n + s.below(9) as usize;
    let to = rt.buffer_create(m, None, ());
    let mut want = vec![0u32; m];
    if s.flip() {
        for w in want.iter_mut() {
            *w = s.word();
        }
        rt.buffer_write([SlabUpdate { array: Array::new(0, m as u32), elements: want.clone() }].into_iter(), &to);
    }
    s.note(|| format!("copy {n} words into {m}"));
    rt.buffer_copy(&from, &to, if s.flip() { Some("copy") } else { None });
    want[..n].copy_from_slice(&model);
    s.check(*to.as_vec() == want, "copying a buffer puts all of its words at the start of the other");
    s.check(*from.as_vec() == model, "copying leaves the source alone");
}

// ---------------------------------------------------------------- C16

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::*;
    fn noop(_: *const ()) {}
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(core::ptr::null(), &VT)
    }
    static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) };
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(&w);
    for _ in 0..1000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    panic!("buffer_read never completes")
}
pub fn read_range<S: Src>(s: &mut S) {
    use std::ops::Bound::*;
    let n = s.below(9) as usize;
    // now and then many words
    let bits = if n == 8 { s.below(14) } else { 0 };
    let n = n + s.below(1 << bits) as usize;
    let words: Vec<u32> = (0..n).map(|_| s.word()).collect();
    let rt = CpuRuntime;
    let buf = rt.buffer_create(n, None, ());
    s.check(buf.as_vec().len() == n && buf.as_vec().iter().all(|w| *w == 0), "a new buffer has its capacity in zero words");
    if n > 0 {
        rt.buffer_write([SlabUpdate { array: Array::new(0, n as u32), elements: words.clone() }].into_iter(), &buf);
    }
    let lo = s.below(n as u32 + 1) as usize;
    let hi = lo + s.below((n - lo) as u32 + 1) as usize;
    let start = match s.below(3) {
        0 => Included(lo),
        1 if lo > 0 => Excluded(lo - 1),
        2 if lo == 0 => Unbounded,
        _ => Included(lo),
    };
    let end = match s.below(3) {
        0 => Excluded(hi),
        1 if hi > 0 => Included(hi - 1),
        2 if hi == n => Unbounded,
        _ => Excluded(hi),
    };
    s.note(|| format!("read {start:?}..{end:?} of {n} words"));
    let read = |r: Result<Vec<u32>, SlabAllocatorError>| r.ok();
    let got = read(block_on(rt.buffer_read(&buf, n, (start, end))));
    s.check(got.as_deref() == Some(&words[lo..hi]), "exactly the words of the range are read");
    // the same through the range syntaxes
    let got = read(block_on(rt.buffer_read(&buf, n, lo..hi)));
    s.check(got.as_deref() == Some(&words[lo..hi]), "a half-open range reads exactly its words");
    if hi > lo {
        let got = read(block_on(rt.buffer_read(&buf, n, lo..=hi - 1)));
        s.check(got.as_deref() == Some(&words[lo..hi]), "a closed range reads exactly its words");
    }
    let got = read(block_on(rt.buffer_read(&buf, n, lo..)));
    s.check(got.as_deref() == Some(&words[lo..]), "a range without end reads to the end of the buffer");
    let got = read(block_on(rt.buffer_read(&buf, n, ..hi)));
    s.check(got.as_deref() == Some(&words[..hi]), "a range without start reads from the start of the buffer");
    let got = read(block_on(rt.buffer_read(&buf, n, ..)));
    s.check(got.as_deref() == Some(&words[..]), "the full range reads the whole buffer");
    s.check(*buf.as_vec() == words, "reading does not change the buffer");
}

// ---------------------------------------------------------------- many of everything

/// Up to a few hundred thousand words, made of one.
fn large<S: Src>(s: &mut S) -> Vec<u32> {
    let n = (1u32 << (9 + s.below(9))) + s.below(9);
    let w = s.word() | 1;
    (0..n).map(|i| w.wrapping_mul(i + 1)).collect()
}

enum Member {
    One(Hybrid<u32>, u32),
    Three(Hybrid<[u32; 3]>, [u32; 3]),
    Row(HybridArray<u32>, Vec<u32>),
    Rows(HybridArray<u64>, Vec<u64>),
}
impl Member {
    fn new<S: Src>(slab: &Alloc, s: &mut S) -> Self {
        match s.below(6) {
            0..=2 => {
                let w = s.word();
                Member::One(slab.new_value(w), w)
            }
            3 => {
                let w = [s.word(), s.word(), s.word()];
                Member::Three(slab.new_value(w), w)
            }
            4 => {
                let w = if s.below(400) == 399 {
                    large(s)
                } else {
                    (0..1 + s.below(6)).map(|_| s.word()).collect()
                };
                Member::Row(slab.new_array(w.clone()), w)
            }
            _ => {
                let w: Vec<u64> = (0..1 + s.below(3)).map(|_| s.w64()).collect();
                Member::Rows(slab.new_array(w.clone()), w)
            }
        }
    }
    fn place(&self) -> (u32, u32) {
        match self {
            Member::One(h, _) => (h.id().inner(), 1),
            Member::Three(h, _) => (h.id().inner(), 3),
            Member::Row(h, v) => (h.array().index, v.len() as u32),
            Member::Rows(h, v) => (h.array().index, 2 * v.len() as u32),
        }
    }
    fn source(&self) -> usize {
        match self {
            Member::One(h, _) => h.notifier_index(),
            Member::Three(h, _) => h.notifier_index(),
            Member::Row(h, _) => h.notifier_index(),
            Member::Rows(h, _) => h.notifier_index(),
        }
    }
    fn set<S: Src>(&mut self, s: &mut S) {
        match self {
            Member::One(h, v) => {
                *v = s.word();
                h.set(*v)
            }
            Member::Three(h, v) => {
                v[s.below(3) as usize] = s.word();
                h.set(*v)
            }
            Member::Row(h, v) => {
                let i = s.below(v.len() as u32) as usize;
                v[i] = s.word();
                h.set_item(i, v[i]);
            }
            Member::Rows(h, v) => {
                let i = s.below(v.len() as u32) as usize;
                v[i] = s.w64();
                h.set_item(i, v[i]);
            }
        }
    }
    fn clone_and_drop(&self) {
        match self {
            Member::One(h, _) => drop(h.clone()),
            Member::Three(h, _) => drop(h.clone()),
            Member::Row(h, _) => drop(h.clone()),
            Member::Rows(h, _) => drop(h.clone()),
        }
    }
    fn words(&self) -> Vec<u32> {
        match self {
            Member::One(_, v) => vec![*v],
            Member::Three(_, v) => v.to_vec(),
            Member::Row(_, v) => v.clone(),
            Member::Rows(_, v) => {
                let mut w = vec![0u32; 2 * v.len()];
                for (i, x) in v.iter().enumerate() {
                    x.write_slab(2 * i, &mut w);
                }
                w
            }
        }
    }
}

/// Hundreds of values, created, set, dropped and recycled between few commits.
pub fn crowd<S: Src>(p: P, s: &mut S) {
    let slab = SlabAllocator::new(CpuRuntime, ());
    let mut live: Vec<Member> = vec![];
    let mut taken: BTreeSet<u32> = BTreeSet::new();
    let mut free: BTreeSet<u32> = BTreeSet::new();
    let mut sources: BTreeSet<usize> = BTreeSet::new();
    let mut before: Vec<u32> = vec![];
    let most = 1u32 << (3 + s.below(7));
    for _ in 0..1 + s.below(4) {
        let mut queued: BTreeSet<usize> = BTreeSet::new();
        let mut gone: Vec<(u32, u32)> = vec![];
        let mut may: BTreeSet<u32> = BTreeSet::new();
        let n = s.below(most);
        s.note(|| format!("{n} new values"));
        let mut longest = longest_run(&free);
        for _ in 0..n {
            let m = Member::new(&slab, s);
            let (at, k) = m.place();
            if p == P::C17 {
                s.check(sources.insert(m.source()), "source ids are unique");
            }
            queued.insert(m.source());
            if p == P::C12 {
                let inside = (at..at + k).all(|w| free.contains(&w));
                s.check(longest < k as u64 || inside, "a value that fits in a free range is placed in free words");
            }
            for w in at..at + k {
                let new = taken.insert(w);
                if p == P::C11 {
                    s.check(new, "live values never overlap, and words of a dropped value are not handed out before the next commit");
                }
                if free.remove(&w) && p == P::C12 && longest >= k as u64 {
                    longest = 0;
                }
                may.insert(w);
            }
            if longest == 0 {
                longest = longest_run(&free);
            }
            live.push(m);
        }
        let n = if s.flip() { s.below(most) } else { 0 };
        s.note(|| format!("{n} sets"));
        for _ in 0..n {
            if !live.is_empty() {
                let i = s.below(live.len() as u32) as usize;
                live[i].set(s);
                queued.insert(live[i].source());
                let (a, k) = live[i].place();
                may.extend(a..a + k);
            }
        }
        if !live.is_empty() && s.below(100) == 99 {
            // one is set, or has a clone dropped, very often
            let n = 1u32 << (8 + s.below(9));
            let i = s.below(live.len() as u32) as usize;
            let sets = s.flip();
            s.note(|| format!("{n} {} one", if sets { "sets of" } else { "clones dropped of" }));
            for _ in 0..=n {
                if sets {
                    live[i].set(s);
                } else {
                    live[i].clone_and_drop();
                }
            }
            queued.insert(live[i].source());
            let (a, k) = live[i].place();
            may.extend(a..a + k);
        }
        // every so-manieth goes
        let every = 1 + s.below(5);
        let keep = s.below(5);
        let mut i = 0u32;
        live.retain(|m| {
            i += 1;
            let stays = keep == 0 || (i + keep) % every.max(2) != 0;
            if !stays {
                queued.insert(m.source());
                gone.push(m.place());
            }
            stays
        });
        s.note(|| format!("{} dropped, {} live", gone.len(), live.len()));
        for &(a, k) in &gone {
            may.extend(a..a + k);
        }
        if p == P::C17 {
            let ids: BTreeSet<usize> = slab.get_updated_source_ids().into_iter().collect();
            s.check(ids == queued, "the updated source ids are exactly those changed since the last commit");
            s.check(slab.has_queued_updates() == !queued.is_empty(), "queued updates are reported exactly when something changed since the last commit");
        }
        let buf = slab.commit();
        let now = buf.as_vec().clone();
        s.note(|| format!("commit: {} words", now.len()));
        if p == P::C17 {
            s.check(!slab.has_queued_updates(), "queued updates are reported exactly when something changed since the last commit");
        }
        for m in &live {
            let (a, k) = m.place();
            let (a, k) = (a as usize, k as usize);
            if p == P::C11 {
                s.check(a + k <= now.len(), "live values lie inside the committed buffer");
            }
            if p == P::C13 {
                s.check(now.get(a..a + k) == Some(&m.words()[..]), "the committed words hold the latest value");
            }
        }
        if p == P::C13 || p == P::C14 {
            s.check(now.len() >= before.len(), "the buffer never shrinks");
            for (i, w) in before.iter().enumerate() {
                if !may.contains(&(i as u32)) {
                    s.check(now.get(i) == Some(w), "words of no updated value keep their previous content");
                }
            }
        }
        for (a, k) in gone {
            for w in a..a + k {
                taken.remove(&w);
                free.insert(w);
            }
        }
        before = now;
    }
}

/// One value with up to tens of thousands of handles, often a power of two of them.
pub fn handles<S: Src>(p: P, s: &mut S) {
    let slab = SlabAllocator::new(CpuRuntime, ());
    let mut w = s.word();
    let first = slab.new_value(w);
    let at = first.id().inner();
    let weak = if s.flip() { Some(WeakHybrid::from_hybrid(&first)) } else { None };
    let (mut hybrids, mut gpus) = (vec![first], vec![]);
    let mut others: Vec<(Hybrid<u32>, u32)> = vec![];
    let most = if s.below(64) == 63 { 16 } else { 9 };
    for _ in 0..s.below(4) {
        let all = hybrids.len() + gpus.len();
        let n = match s.below(3) {
            0 => {
                let x = 1u32 << s.below(most + 1);
                s.below(x) as usize
            }
            // that many, or one more or less
            _ => {
                let x = (1usize << s.below(most + 1)) + s.below(4) as usize;
                x.saturating_sub(all + 2)
            }
        };
        let kinds = if n > 2000 { [0, 3] } else { [4, 4] };
        s.note(|| format!("{n} more handles"));
        for _ in 0..n {
            let kind = if kinds[0] == 4 { s.below(4) } else { kinds[hybrids.is_empty() as usize] };
            match (kind, hybrids.last(), gpus.last()) {
                (0..=1, Some(h), _) => {
                    let h: Hybrid<u32> = h.clone();
                    hybrids.push(h)
                }
                (2, Some(h), _) => {
                    let h = h.clone();
                    gpus.push(h.into_gpu_only())
                }
                (_, _, Some(g)) => {
                    let g: Gpu<u32> = g.clone();
                    gpus.push(g)
                }
                _ => {}
            }
        }
        let all = hybrids.len() + gpus.len();
        s.note(|| format!("{} hybrid, {} gpu handles", hybrids.len(), gpus.len()));
        if p == P::C15 {
            if let Some(weak) = &weak {
                s.check(weak.strong_count() == all, "strong_count is the number of handles keeping the value alive");
                s.check(weak.has_external_references() == (all > 0), "external references exist exactly while a strong handle exists");
            }
            s.check(hybrids.iter().take(600).all(|h| h.ref_count() == all), "ref_count is the number of handles keeping the value alive");
        }
        if s.flip() {
            w = s.word();
            if let Some(h) = hybrids.last() {
                h.set(w);
            } else if let Some(g) = gpus.last() {
                g.set(w);
            }
        }
        if s.below(3) > 0 {
            s.note(|| "commit, another value, commit".to_string());
            slab.commit();
            let v = s.word();
            let other = slab.new_value(v);
            if p == P::C11 {
                s.check(other.id().inner() != at, "the words of a value are not handed out again while a handle to it exists");
            }
            others.push((other, v));
            let now = slab.commit().as_vec().clone();
            if p == P::C11 {
                s.check((at as usize) < now.len(), "live values lie inside the committed buffer");
            }
            if p == P::C13 {
                s.check(now.get(at as usize) == Some(&w), "the committed words hold the latest value");
                s.check(others.iter().all(|(h, v)| now.get(h.id().index()) == Some(v)), "the committed words hold the latest value");
            }
        }
        let n = s.below(all as u32 + 1) as usize;
        s.note(|| format!("{n} handles dropped"));
        let kinds = if n > 2000 { s.below(2) } else { 2 };
        for _ in 0..n {
            let hybrid = if kinds == 2 { s.flip() } else { kinds == 1 };
            if (hybrid || gpus.is_empty()) && !hybrids.is_empty() {
                hybrids.pop();
            } else {
                gpus.pop();
            }
        }
        let all = hybrids.len() + gpus.len();
        if let (P::C15, Some(weak)) = (p, &weak) {
            s.check(weak.strong_count() == all, "strong_count is the number of handles keeping the value alive");
            let up = weak.upgrade();
            s.check(up.is_some() == !hybrids.is_empty(), "a weak handle upgrades exactly while a strong hybrid handle exists");
        }
        if all == 0 {
            slab.commit();
            let other = slab.new_value(1u32);
            if p == P::C12 {
                s.check(other.id().inner() == at, "the words of a dropped value are reused");
            }
            return;
        }
    }
}

/// Arrays of up to some hundred elements, several handles, every way to reach an element.
pub fn arrays<S: Src>(s: &mut S) {
    if s.flip() {
        array_of::<u32, S>(s)
    } else if s.flip() {
        array_of::<(u8, u64), S>(s)
    } else {
        array_of::<u64, S>(s)
    }
}
fn array_of<T: Item, S: Src>(s: &mut S) {
    let slab = SlabAllocator::new(CpuRuntime, ());
    for _ in 0..s.below(3) {
        slab.new_value(s.word());
    }
    let most = 1u32 << s.below(12);
    let n = s.below(most) as usize;
    let mut values: Vec<T> = (0..n).map(|_| T::gen(s)).collect();
    let mut on_gpu = values.clone();
    let mut hybrids = vec![slab.new_array(values.clone())];
    let mut gpus: Vec<GpuArray<T>> = vec![];
    s.note(|| format!("array of {n} x {} words", T::WANT));
    let index = |s: &mut S| match s.below(8) {
        0 => n,
        1 => n + 1 + s.below(4) as usize,
        2 => *pick(&[usize::MAX, usize::MAX / 2, 1 << 32, u32::MAX as usize, 1 << 63], s),
        3 => (1usize << (16 + s.below(48))) + s.below(n as u32 + 1) as usize,
        4 => n.wrapping_sub(1),
        5 => s.below(n.min(4) as u32 + 1) as usize,
        _ => s.below(n as u32 + 1) as usize,
    };
    let told = |slab: &Alloc| slab.get_updated_source_ids().into_iter().collect::<BTreeSet<usize>>();
    for _ in 0..2 + s.below(12) {
        let i = index(s);
        let v = T::gen(s);
        let before = if i >= n { told(&slab) } else { BTreeSet::new() };
        let op = s.below(8);
        match op {
            0..=1 if !hybrids.is_empty() => {
                s.note(|| format!("set_item {i}"));
                let old = pick(&hybrids, s).set_item(i, v.clone());
                s.check(old.is_some() == (i < n), "out-of-range element access returns nothing");
                if i < n {
                    s.check(old.is_some_and(|o| o.same(&values[i])), "set_item returns the previous element");
                    values[i] = v.clone();
                    on_gpu[i] = v;
                }
            }
            2..=3 if !hybrids.is_empty() => {
                s.note(|| format!("modify element {i}"));
                let w = v.clone();
                let (r, seen) = {
                    let cell = std::sync::Arc::new(std::sync::Mutex::new(None));
                    let c = cell.clone();
                    let r = pick(&hybrids, s).modify(i, move |t| {
                        *c.lock().unwrap() = Some(t.clone());
                        *t = w;
                        7u32
                    });
                    let seen = cell.lock().unwrap().take();
                    (r, seen)
                };
                s.check(r == (i < n).then_some(7) && seen.is_some() == (i < n), "out-of-range element access returns nothing");
                if i < n {
                    s.check(seen.is_some_and(|o| o.same(&values[i])), "modify sees the current element");
                    values[i] = v.clone();
                    on_gpu[i] = v;
                }
            }
            4 if !gpus.is_empty() => {
                s.note(|| format!("gpu set_item {i}"));
                pick(&gpus, s).set_item(i, &v);
                if i < n {
                    on_gpu[i] = v;
                }
            }
            5 if hybrids.len() < 4 && !hybrids.is_empty() => {
                let h = pick(&hybrids, s).clone();
                if s.flip() {
                    gpus.push(h.into_gpu_only())
                } else {
                    hybrids.push(h)
                }
            }
            6 => {
                let buffer = slab.commit().as_vec().clone();
                let array = hybrids.first().map(|h| h.array()).or(gpus.first().map(|g| g.array())).unwrap();
                let fits = n * T::WANT == 0 || array.starting_index() + n * T::WANT <= buffer.len();
                s.check(fits, "a live array lies inside the committed buffer");
                if fits && n > 0 {
                    s.check((0..n).all(|i| T::read_slab(array.starting_index() + i * T::WANT, &buffer).same(&on_gpu[i])), "the committed words hold the latest elements");
                }
            }
            _ => {
                for h in &hybrids {
                    let all = h.get_vec();
                    s.check(h.len() == n && h.is_empty() == (n == 0), "an array handle has as many elements as values");
                    s.check(all.len() == n && all.iter().zip(&values).all(|(a, b)| a.same(b)), "every array handle gets the shared values");
                    s.check(match h.get(i) { Some(t) => i < n && t.same(&values[i]), None => i >= n }, "every array handle gets the shared elements");
                    s.check(if i < n { h.get_id(i).inner() == h.array().index + (i * T::WANT) as u32 } else { h.get_id(i).is_none() }, "element ids follow the array");
                    s.check(h.ref_count() == hybrids.len() + gpus.len(), "ref_count is the number of handles keeping the array alive");
                }
            }
        }
        if i >= n && op != 6 {
            s.check(told(&slab) == before, "out-of-range element access changes nothing");
        }
    }
    for h in &hybrids {
        let all = h.get_vec();
        s.check(all.len() == n && h.len() == n && all.iter().zip(&values).all(|(a, b)| a.same(b)), "every array handle gets the shared values");
    }
}

//! The same operations on both runtimes: the words must agree.
use crate::gen::Gen;
use crate::src::Src;
use craballoc::prelude::*;
use crabslab::{Array, Slab};
use std::ops::Bound::{self, *};
use std::sync::Arc;

fn gpu() -> WgpuRuntime {
    let (device, queue) = wgpu::stub();
    WgpuRuntime { device: Arc::new(device), queue: Arc::new(queue) }
}
fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::*;
    struct Quiet;
    impl Wake for Quiet {
        fn wake(self: Arc<Self>) {}
    }
    let w = Waker::from(Arc::new(Quiet));
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(&w);
    for _ in 0..1000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    panic!("reading never completes: nothing is left that would wake it")
}
/// Bounds that denote `lo..hi` of `n` words.
fn bounds<S: Src>(lo: usize, hi: usize, n: usize, s: &mut S) -> (Bound<usize>, Bound<usize>) {
    let start = match s.below(3) {
        0 => Included(lo),
        1 if lo > 0 => Excluded(lo - 1),
        2 if lo == 0 => Unbounded,
        _ => Included(lo),
    };
    let end = match s.below(3) {
        0 => Excluded(hi),
        1 if hi > 0 => Included(hi - 1),
        2 if hi == n => Unbounded,
        _ => Excluded(hi),
    };
    (start, end)
}
fn ok(r: Result<Vec<u32>, SlabAllocatorError>) -> Option<Vec<u32>> {
    r.ok()
}
fn usages<S: Src>(s: &mut S) -> wgpu::BufferUsages {
    match s.below(4) {
        0 => wgpu::BufferUsages::empty(),
        1 => wgpu::BufferUsages::VERTEX,
        2 => wgpu::BufferUsages::STORAGE | wgpu::BufferUsages::INDIRECT,
        _ => wgpu::BufferUsages::COPY_DST | wgpu::BufferUsages::COPY_SRC,
    }
}

/// A few hundred thousand words at most, seldom more than a few.
fn long<S: Src>(s: &mut S) -> u32 {
    if s.below(40) == 39 {
        1 << (4 + s.below(14))
    } else {
        0
    }
}
fn words<S: Src>(n: u32, s: &mut S) -> Vec<u32> {
    if n < 16 {
        return (0..n).map(|_| s.word()).collect();
    }
    let w = s.word() | 1;
    (0..n).map(|i| w.wrapping_mul(i + 1)).collect()
}

/// Creating, writing, copying and reading buffers by themselves.
pub fn runtimes<S: Src>(s: &mut S) {
    let (a, b) = (CpuRuntime, gpu());
    let (mut ca, mut cb) = (vec![], vec![]);
    for _ in 0..1 + s.below(10) {
        match s.below(5) {
            0 | 1 if ca.len() < 4 => {
                let n = (s.below(13) + long(s)) as usize;
                let label = if s.flip() { Some("buffer") } else { None };
                s.note(|| format!("create buffer {} of {n} words", ca.len()));
                ca.push(a.buffer_create(n, label, ()));
                let u = usages(s);
                cb.push(b.buffer_create(n, label, u));
            }
            2 if !ca.is_empty() => {
                let i = s.below(ca.len() as u32) as usize;
                let n = ca[i].as_vec().len();
                let ups: Vec<SlabUpdate> = (0..s.below(4))
                    .map(|_| {
                        let at = s.below(n as u32 + 1);
                        let len = s.below(n as u32 - at + 1);
                        SlabUpdate { array: Array::new(at, len), elements: words(len, s) }
                    })
                    .collect();
                s.note(|| format!("write {:?} to buffer {i}", ups.iter().map(|u| (u.array.index, u.array.len)).collect::<Vec<_>>()));
                a.buffer_write(ups.clone().into_iter(), &ca[i]);
                b.buffer_write(ups.into_iter(), &cb[i]);
            }
            3 if ca.len() > 1 => {
                let i = s.below(ca.len() as u32) as usize;
                let j = s.below(ca.len() as u32) as usize;
                if i != j && ca[i].as_vec().len() <= ca[j].as_vec().len() {
                    s.note(|| format!("copy buffer {i} to buffer {j}"));
                    let label = if s.flip() { Some("copy") } else { None };
                    a.buffer_copy(&ca[i], &ca[j], label);
                    b.buffer_copy(&cb[i], &cb[j], label);
                }
            }
            _ if !ca.is_empty() => {
                let i = s.below(ca.len() as u32) as usize;
                let n = ca[i].as_vec().len();
                let lo = s.below(n as u32 + 1) as usize;
                let hi = lo + s.below((n - lo) as u32 + 1) as usize;
                let r = bounds(lo, hi, n, s);
                s.note(|| format!("read {r:?} of buffer {i}"));
                let x = ok(block_on(a.buffer_read(&ca[i], n, r)));
                let y = ok(block_on(b.buffer_read(&cb[i], n, r)));
                s.check(x.is_some() && y == x, "both runtimes read the same words");
            }
            _ => {}
        }
        // every write is submitted, whether or not something else follows
        for (x, y) in ca.iter().zip(&cb) {
            s.check(*x.as_vec() == y.peek(), "both runtimes have the same words in their buffers");
        }
    }
}

/// A value or an array in both slabs.
trait Pair<S: Src> {
    fn act(&mut self, s: &mut S);
    /// what both slabs read back for an array
    fn read(&self, gpu: &SlabAllocator<WgpuRuntime>, words: &[u32], s: &mut S);
    /// the word after its last one
    fn end(&self) -> usize;
}
struct V<T>(Vec<Hybrid<T>>, Vec<Hybrid<T>>);
struct A<T>(HybridArray<T>, HybridArray<T>);
trait Item: Gen + Clone + Default + Send + Sync + 'static {}
impl<T: Gen + Clone + Default + Send + Sync + 'static> Item for T {}

impl<T: Item, S: Src> Pair<S> for V<T> {
    fn act(&mut self, s: &mut S) {
        let i = s.below(self.0.len() as u32) as usize;
        let v = T::gen(s);
        match s.below(4) {
            0 => {
                self.0.push(self.0[i].clone());
                self.1.push(self.1[i].clone());
            }
            1 if self.0.len() > 1 => {
                self.0.remove(i);
                self.1.remove(i);
            }
            2 => {
                let w = v.clone();
                self.0[i].modify(|t| *t = v);
                self.1[i].modify(|t| *t = w);
            }
            _ => {
                self.0[i].set(v.clone());
                self.1[i].set(v);
            }
        }
    }
    fn read(&self, gpu: &SlabAllocator<WgpuRuntime>, words: &[u32], s: &mut S) {
        let (x, y) = (self.0[0].id(), self.1[0].id());
        if Slab::contains(words, x) {
            let r = block_on(gpu.read_array(Array::<T>::new(y.inner(), 1)));
            s.check(matches!(&r, Ok(v) if v.len() == 1 && v[0].same(&words.read(x))), "a value is read back as one");
        }
    }
    fn end(&self) -> usize {
        self.1[0].id().inner() as usize + T::SLAB_SIZE
    }
}
impl<T: Item, S: Src> Pair<S> for A<T> {
    fn act(&mut self, s: &mut S) {
        let i = s.below(self.0.len() as u32 + 1) as usize;
        let v = T::gen(s);
        self.0.set_item(i, v.clone());
        self.1.set_item(i, v);
    }
    fn read(&self, gpu: &SlabAllocator<WgpuRuntime>, words: &[u32], s: &mut S) {
        let n = self.0.len() as u32;
        let (x, y) = (self.0.array(), self.1.array());
        let lo = s.below(n + 1);
        let k = s.below(n - lo + 1);
        let at = |a: Array<T>| if n == 0 { a } else { Array::<T>::new(a.index + lo * T::SLAB_SIZE as u32, k) };
        let (x, y) = (at(x), at(y));
        if x.index as usize + x.len() * T::SLAB_SIZE <= words.len() || n == 0 {
            s.note(|| format!("read array {y:?}"));
            let want = words.read_vec(x);
            match block_on(gpu.read_array(y)) {
                Ok(got) => {
                    s.check(got.len() == want.len(), "an array is read back with its length");
                    s.check(got.iter().zip(&want).all(|(a, b)| a.same(b)), "an array is read back with its elements");
                }
                Err(_) => s.check(false, "an array is read back"),
            }
        }
    }
    fn end(&self) -> usize {
        match self.1.len() {
            0 => 0,
            n => self.1.array().starting_index() + n * T::SLAB_SIZE,
        }
    }
}

type Slabs = (SlabAllocator<CpuRuntime>, SlabAllocator<WgpuRuntime>);
fn pair<T: Item, S: Src>(slabs: &Slabs, s: &mut S) -> Box<dyn Pair<S>> {
    if s.flip() {
        let v = T::gen(s);
        Box::new(V(vec![slabs.0.new_value(v.clone())], vec![slabs.1.new_value(v)]))
    } else {
        let mut v: Vec<T> = (0..s.below(6)).map(|_| T::gen(s)).collect();
        for _ in 0..long(s) / 4 * (v.len() as u32).min(1) {
            let k = v.len() - 1 - s.below(v.len().min(3) as u32) as usize;
            v.push(v[k].clone());
        }
        s.note(|| format!("new array of {} items of {} words", v.len(), T::SLAB_SIZE));
        Box::new(A(slabs.0.new_array(v.clone()), slabs.1.new_array(v)))
    }
}

pub fn history<S: Src + 'static>(s: &mut S) {
    let rt = gpu();
    let slabs: Slabs = (SlabAllocator::new(CpuRuntime, ()), SlabAllocator::new(rt.clone(), usages(s)));
    let slabs: Slabs = if s.flip() {
        slabs
    } else {
        let u = usages(s);
        (SlabAllocator::new_with_label(CpuRuntime, (), Some("cpu")), SlabAllocator::new_with_label(rt, u, Some("gpu")))
    };
    let none = block_on(slabs.1.read(0..0));
    s.check(none.is_err(), "there is nothing to read before the first commit");
    let mut objs: Vec<Box<dyn Pair<S>>> = vec![];
    let mut old = vec![];
    // the words allocated so far
    let mut len = 0;
    for _ in 0..1 + s.below(20) {
        match s.below(9) {
            0..=2 if objs.len() < 7 => {
                let o = match s.below(10) {
                    0 => pair::<u32, S>(&slabs, s),
                    1 => pair::<u64, S>(&slabs, s),
                    2 => pair::<(u8, u64), S>(&slabs, s),
                    3 => pair::<Option<u128>, S>(&slabs, s),
                    4 => pair::<glam::Vec4, S>(&slabs, s),
                    5 => pair::<glam::Mat4, S>(&slabs, s),
                    6 => pair::<[u32; 7], S>(&slabs, s),
                    7 => pair::<[u64; 6], S>(&slabs, s),
                    8 => pair::<u8, S>(&slabs, s),
                    _ => pair::<glam::Vec3, S>(&slabs, s),
                };
                len = len.max(o.end());
                objs.push(o);
            }
            3 | 4 if !objs.is_empty() => {
                let i = s.below(objs.len() as u32) as usize;
                objs[i].act(s);
            }
            5 if !objs.is_empty() => {
                let i = s.below(objs.len() as u32) as usize;
                objs.remove(i);
            }
            6 | 7 => {
                s.note(|| "commit".into());
                let (x, y) = (slabs.0.commit(), slabs.1.commit());
                let words = x.as_vec().clone();
                s.check(y.peek() == words, "after a commit both buffers have the same words");
                s.check(y.size() as usize == 4 * words.len(), "both buffers have the same size");
                let n = words.len();
                let lo = s.below(n as u32 + 1) as usize;
                let hi = lo + s.below((n - lo) as u32 + 1) as usize;
                s.note(|| format!("read {lo}..{hi} of {n}"));
                let got = ok(block_on(slabs.1.read(lo..hi)));
                s.check(got.as_deref() == Some(&words[lo..hi]), "the words of a range are read back");
                let b = bounds(lo, hi, usize::MAX, s);
                let got = ok(block_on(slabs.1.read(b)));
                s.check(got.as_deref() == Some(&words[lo..hi]), "the words that the bounds denote are read back");
                for o in &objs {
                    o.read(&slabs.1, &words, s);
                }
                let whole = ok(block_on(slabs.1.read(..)));
                // an end that is not given is the end of what was allocated
                s.check(whole.as_deref() == words.get(..len), "reading everything reads the allocated words in order");
                old.push((x, y));
            }
            _ if !old.is_empty() => {
                let i = s.below(old.len() as u32) as usize;
                let (x, y) = &mut old[i];
                s.check(x.is_valid() == y.is_valid(), "buffers are replaced by the same commits");
                if s.flip() {
                    let (p, q) = (x.update_if_invalid(), y.update_if_invalid());
                    s.check(p == q, "buffers are refreshed alike");
                }
                s.check(*x.as_vec() == y.peek(), "both buffers have the same words");
            }
            _ => {}
        }
    }
}

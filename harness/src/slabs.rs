//! C05, C06, C07, C08: slabs, growable slabs and handles.
use crate::gen::Gen;
use crate::src::Src;
use crabslab::offset::Offset;
use crabslab::{Array, CpuSlab, GrowableSlab, Id, Slab, SlabItem, ID_NONE};

/// A growable slab that records capacity exactly as asked for.
pub struct Mock {
    pub words: Vec<u32>,
    pub cap: usize,
}
impl Slab for Mock {
    fn len(&self) -> usize {
        self.words.len()
    }
    fn read_unchecked<T: SlabItem>(&self, id: Id<T>) -> T {
        T::read_slab(id.index(), &self.words)
    }
    fn write_indexed<T: SlabItem>(&mut self, t: &T, index: usize) -> usize {
        t.write_slab(index, &mut self.words)
    }
    fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], index: usize) -> usize {
        let mut index = index;
        for i in t {
            index = i.write_slab(index, &mut self.words);
        }
        index
    }
}
impl GrowableSlab for Mock {
    fn capacity(&self) -> usize {
        self.cap
    }
    fn reserve_capacity(&mut self, capacity: usize) {
        self.cap = capacity;
    }
    fn increment_len(&mut self, n: usize) -> usize {
        let l = self.words.len();
        self.words.resize(l + n, 0);
        l
    }
}

/// The same words with room for more behind them.
fn spare(words: Vec<u32>) -> Vec<u32> {
    let mut v = Vec::with_capacity(2 * words.len() + 9);
    v.extend(words);
    v
}

/// The concrete slab kinds, and how to look at their words.
pub trait Kind: Slab {
    const NAME: &'static str;
    fn make(words: Vec<u32>) -> Self;
    fn words(&self) -> &[u32];
    /// No room to spare.
    fn tight(words: Vec<u32>) -> Self
    where
        Self: Sized,
    {
        Self::make(words)
    }
}
impl Kind for Vec<u32> {
    fn tight(words: Vec<u32>) -> Self {
        words
    }
    const NAME: &'static str = "Vec<u32>";
    fn make(words: Vec<u32>) -> Self {
        spare(words)
    }
    fn words(&self) -> &[u32] {
        self
    }
}
impl<B: Kind + GrowableSlab> Kind for CpuSlab<B> {
    const NAME: &'static str = "CpuSlab";
    fn make(words: Vec<u32>) -> Self {
        CpuSlab::new(B::make(words))
    }
    fn tight(words: Vec<u32>) -> Self {
        CpuSlab::new(B::tight(words))
    }
    fn words(&self) -> &[u32] {
        self.as_ref().words()
    }
}
impl Kind for Mock {
    const NAME: &'static str = "Mock";
    fn make(words: Vec<u32>) -> Self {
        let cap = words.len();
        Mock { words, cap }
    }
    fn words(&self) -> &[u32] {
        &self.words
    }
}

/// Many words, from one.
pub fn long<S: Src>(least: usize, s: &mut S) -> Vec<u32> {
    let most = 1 << (8 + s.below(11));
    let n = least as u32 + s.below(most);
    let w = s.word() | 1;
    (0..n).map(|i| (i ^ w).wrapping_mul(w)).collect()
}

fn words_of<S: Src>(max: u32, s: &mut S) -> Vec<u32> {
    if s.below(1024) == 1023 {
        return long(0, s);
    }
    let n = s.below(max + 1);
    (0..n).map(|_| s.word()).collect()
}

/// A few items, now and then many.
fn few<S: Src>(s: &mut S) -> usize {
    match s.below(6) {
        5 if s.below(20) == 0 => s.below(600) as usize,
        5 if s.below(2000) == 0 => s.below(70_000) as usize,
        n => n as usize,
    }
}

/// An id near an interesting boundary, or anywhere.
fn some_id<T: Gen, S: Src>(len: usize, s: &mut S) -> u32 {
    match s.below(5) {
        0 => s.word(),
        1 => u32::MAX - s.below(T::WANT as u32 + 3),
        2 => (len as u32).wrapping_sub(s.below(T::WANT as u32 + 2)),
        3 => (len as u32).wrapping_add(s.below(T::WANT as u32 + 2)),
        _ => s.below(len as u32 + 2),
    }
}

// ---------------------------------------------------------------- C05

pub fn checked_read_on<L: Slab + ?Sized, T: Gen + Default, S: Src>(slab: &L, words: &[u32], s: &mut S) {
    s.check(slab.len() == words.len(), "len is the number of words");
    s.check(slab.is_empty() == words.is_empty(), "is_empty exactly when there are no words");
    let raw = some_id::<T, S>(words.len(), s);
    s.note(|| format!("len {} id {} size {}", words.len(), raw, T::WANT));
    let id = Id::<T>::new(raw);
    let want = raw as u64 + T::WANT as u64 <= words.len() as u64;
    s.check(slab.contains(id) == want, "contains exactly when all SLAB_SIZE words lie within the slab");
    let r = slab.read(id);
    if want {
        s.check(r.same(&T::read_slab(raw as usize, words)), "a contained read gives the stored value");
        s.check(slab.read_unchecked(id).same(&r), "an unchecked read of a contained id gives the stored value");
    } else {
        s.check(r.same(&T::default()), "a read out of range gives the Default value");
    }
    s.check(slab.read(Id::<T>::NONE).same(&T::default()), "reading NONE gives the Default value");
    let old = T::gen(s);
    let mut t = T::read_slab(0, &encode(&old));
    slab.read_into_if_some(Id::<T>::NONE, &mut t);
    s.check(t.same(&old), "reading NONE into a value leaves it untouched");
    if want && raw != ID_NONE {
        slab.read_into_if_some(id, &mut t);
        s.check(t.same(&r), "reading a contained id into a value replaces it");
    }
}
fn encode<T: SlabItem>(t: &T) -> Vec<u32> {
    let mut v = vec![0; T::SLAB_SIZE];
    t.write_slab(0, &mut v);
    v
}
pub fn checked_read<T: Gen + Default, S: Src>(s: &mut S) {
    let words = words_of(T::WANT as u32 + 4, s);
    match s.below(4) {
        0 => checked_read_on::<[u32], T, S>(&words, &words, s),
        1 => checked_read_on::<Vec<u32>, T, S>(&spare(words.clone()), &words, s),
        2 => checked_read_on::<CpuSlab<Vec<u32>>, T, S>(&CpuSlab::new(if s.flip() { spare(words.clone()) } else { words.clone() }), &words, s),
        _ => checked_read_on::<CpuSlab<CpuSlab<Mock>>, T, S>(&Kind::make(words.clone()), &words, s),
    }
}

// ---------------------------------------------------------------- C06

fn frame<S: Src>(before: &[u32], after: &[u32], at: usize, n: usize, s: &mut S) {
    s.check(before.len() == after.len(), "writing keeps the slab's length");
    let same = before.len() == after.len() && before[..at] == after[..at] && before[at + n..] == after[at + n..];
    s.check(same, "no word outside the written region changes");
}

/// A slab that may be unsized, and the thing that owns it.
pub trait Owned: Slab {
    const NAME: &'static str;
    type Owner;
    fn own(words: Vec<u32>) -> Self::Owner;
    fn of(o: &mut Self::Owner) -> &mut Self;
    fn words(&self) -> &[u32];
}
impl Owned for [u32] {
    const NAME: &'static str = "[u32]";
    type Owner = Vec<u32>;
    fn own(words: Vec<u32>) -> Vec<u32> {
        words
    }
    fn of(o: &mut Vec<u32>) -> &mut [u32] {
        o
    }
    fn words(&self) -> &[u32] {
        self
    }
}
impl<K: Kind> Owned for K {
    const NAME: &'static str = <K as Kind>::NAME;
    type Owner = K;
    fn own(words: Vec<u32>) -> K {
        K::make(words)
    }
    fn of(o: &mut K) -> &mut K {
        o
    }
    fn words(&self) -> &[u32] {
        Kind::words(self)
    }
}

pub fn slices_on<L: Owned + ?Sized, T: Gen + Default, S: Src>(s: &mut S) {
    let n = few(s);
    let items: Vec<T> = (0..n).map(|_| T::gen(s)).collect();
    let words: Vec<u32> = if s.below(1024) == 1023 {
        long(n * T::WANT, s)
    } else {
        let len = n * T::WANT + s.below(6) as usize;
        (0..len).map(|_| s.word()).collect()
    };
    let len = words.len();
    let at = s.below((len - n * T::WANT) as u32 + 1) as usize;
    s.note(|| format!("{}: write {n} items of {} words at {at} in {len} words", L::NAME, T::WANT));
    let mut owner = L::own(words.clone());
    let slab = L::of(&mut owner);
    if s.flip() {
        let next = slab.write_indexed_slice(&items, at);
        s.check(next == at + n * T::WANT, "write_indexed_slice returns the index after the last item");
    } else {
        slab.write_array(Array::<T>::new(at as u32, n as u32), &items);
    }
    frame(&words, slab.words(), at, n * T::WANT, s);
    for k in 0..n {
        s.check(
            T::read_slab(at + k * T::WANT, slab.words()).same(&items[k]),
            "item k is stored at i + k * SLAB_SIZE",
        );
    }
    // single writes
    if n > 0 {
        let t = T::gen(s);
        let k = s.below(n as u32) as usize;
        let before = slab.words().to_vec();
        let p = at + k * T::WANT;
        if s.flip() {
            slab.write(Id::new(p as u32), &t);
        } else {
            let next = slab.write_indexed(&t, p);
            s.check(next == p + T::WANT, "write_indexed returns the index after the item");
        }
        frame(&before, slab.words(), p, T::WANT, s);
        s.check(slab.read(Id::<T>::new(p as u32)).same(&t), "write at an id then read gives the value");
    }
    // too little data does nothing
    let before = slab.words().to_vec();
    let more = n as u32 + 1 + s.below(3);
    slab.write_array(Array::<T>::new(at as u32, more), &items);
    s.check(slab.words() == &before[..], "write_array with fewer items than the array is long changes nothing");
    // reading arrays, also partly or wholly out of range
    let count = s.below(n as u32 + 4);
    let start = match s.below(4) {
        0 => s.below(len as u32 + 3),
        1 => (len as u32 + 3).saturating_sub(s.below(2 + T::WANT as u32)),
        2 => 0x8000_0000 + s.below(1000),
        _ => at as u32,
    };
    let array = Array::<T>::new(start, count);
    s.note(|| format!("read_vec start {start} count {count}"));
    let got = slab.read_vec(array);
    s.check(got.len() == count as usize, "read_vec gives as many items as the array is long");
    for k in 0..count as usize {
        let p = start as u64 + (k * T::WANT) as u64;
        let want = if p + T::WANT as u64 <= len as u64 { T::read_slab(p as usize, slab.words()) } else { T::default() };
        s.check(got[k].same(&want), "read_vec item k is a checked read of the array's k-th id");
    }
    let none = slab.read_vec(Array::<T>::NONE);
    s.check(none.is_empty(), "reading the null array gives nothing");
}
pub fn slices<T: Gen + Default, S: Src>(s: &mut S) {
    match s.below(4) {
        0 => slices_on::<Vec<u32>, T, S>(s),
        3 => slices_on::<[u32], T, S>(s),
        1 => slices_on::<CpuSlab<Vec<u32>>, T, S>(s),
        _ => slices_on::<CpuSlab<Mock>, T, S>(s),
    }
}

// ---------------------------------------------------------------- C07

struct Grow<L> {
    slab: L,
    /// the words the slab must hold
    model: Vec<u32>,
}
impl<L: Kind + GrowableSlab> Grow<L> {
    fn agree<S: Src>(&self, s: &mut S) {
        s.check(self.slab.len() == self.model.len(), "the length grows by exactly the words needed");
        s.check(self.slab.words() == &self.model[..], "all words hold what was written there, fresh words are zero");
        s.check(self.slab.capacity() >= self.slab.len(), "the capacity is at least the length");
    }
    fn op<T: Gen + Default + Clone, S: Src>(&mut self, s: &mut S) {
        let at = self.model.len();
        match s.below(7) {
            0 => {
                let t = T::gen(s);
                let id = self.slab.append(&t);
                s.note(|| format!("append ({} words) -> {}", T::WANT, id.inner()));
                s.check(id.index() == at, "append returns the previous length");
                self.model.extend(encode(&t));
                self.agree(s);
                s.check(self.slab.read(id).same(&t), "an appended value reads back");
            }
            1 => {
                let n = few(s);
                let ts: Vec<T> = (0..n).map(|_| T::gen(s)).collect();
                let a = self.slab.append_array(&ts);
                s.note(|| format!("append_array {n} x {} words -> {},{}", T::WANT, a.index, a.len));
                if n == 0 {
                    s.check(a.is_null() && a.is_empty(), "an empty array is the null array");
                } else {
                    s.check(a.starting_index() == at && a.len() == n, "append_array returns the fresh words");
                }
                for t in &ts {
                    self.model.extend(encode(t));
                }
                self.agree(s);
                let back = self.slab.read_vec(a);
                s.check(back.len() == n && back.iter().zip(&ts).all(|(x, y)| x.same(y)), "an appended array reads back");
            }
            2 => {
                let id = self.slab.allocate::<T>();
                s.note(|| format!("allocate {} words -> {}", T::WANT, id.inner()));
                s.check(id.index() == at, "allocate returns the previous length");
                self.model.resize(at + T::WANT, 0);
                self.agree(s);
            }
            3 => {
                let n = few(s);
                let a = self.slab.allocate_array::<T>(n);
                s.note(|| format!("allocate_array {n} x {} words -> {},{}", T::WANT, a.index, a.len));
                if n == 0 {
                    s.check(a.is_null() && a.is_empty(), "an empty array is the null array");
                } else {
                    s.check(a.starting_index() == at && a.len() == n, "allocate_array returns the fresh words");
                }
                self.model.resize(at + n * T::WANT, 0);
                self.agree(s);
            }
            4 => {
                let n = if s.below(64) == 63 { s.below(100_000) } else { s.below(40) } as usize;
                self.slab.maybe_expand_to_fit::<T>(n);
                s.note(|| format!("maybe_expand_to_fit {n} x {} words", T::WANT));
                s.check(
                    self.slab.capacity() >= self.model.len() + n * T::WANT,
                    "after expanding, the capacity fits the length plus the items",
                );
                self.agree(s);
            }
            5 => {
                // capacities above the current one; what less means is not specified
                let c = self.slab.capacity() + if s.below(64) == 63 { s.below(100_000) } else { s.below(64) } as usize;
                self.slab.reserve_capacity(c);
                s.note(|| format!("reserve_capacity {c}"));
                s.check(self.slab.capacity() >= c, "reserving a capacity makes the capacity at least that much");
                self.agree(s);
            }
            _ => {
                if at >= T::WANT {
                    let p = s.below((at - T::WANT) as u32 + 1) as usize;
                    let t = T::gen(s);
                    // the model is written word by word from the encoding over the old words,
                    // so that items that leave words alone (None) are modelled too
                    t.write_slab(p, &mut self.model);
                    self.slab.write(Id::new(p as u32), &t);
                    s.note(|| format!("write {} words at {p}", T::WANT));
                    self.agree(s);
                }
            }
        }
    }
}
fn grow_on<L: Kind + GrowableSlab, S: Src>(s: &mut S) {
    let words = words_of(6, s);
    s.note(|| format!("{} of {} words", L::NAME, words.len()));
    let start = if s.flip() { L::make(words.clone()) } else { L::tight(words.clone()) };
    let mut g = Grow { slab: start, model: words };
    g.agree(s);
    let steps = s.below(10);
    for _ in 0..steps {
        match s.below(10) {
            0 => g.op::<u32, S>(s),
            1 => g.op::<(u8, u64), S>(s),
            2 => g.op::<core::marker::PhantomData<u8>, S>(s),
            3 => g.op::<Option<f32>, S>(s),
            4 => g.op::<glam::Vec4, S>(s),
            5 => g.op::<[u64; 6], S>(s),
            6 => g.op::<glam::Mat4, S>(s),
            7 => g.op::<[u32; 7], S>(s),
            8 => g.op::<glam::Vec3, S>(s),
            _ => g.op::<crate::derived::EMixed, S>(s),
        }
    }
}
pub fn growable<S: Src>(s: &mut S) {
    match s.below(4) {
        0 => grow_on::<Vec<u32>, S>(s),
        1 => grow_on::<CpuSlab<Vec<u32>>, S>(s),
        2 => grow_on::<Mock, S>(s),
        _ => grow_on::<CpuSlab<CpuSlab<Mock>>, S>(s),
    }
}

/// `maybe_expand_to_fit` on lengths and capacities of any magnitude (no memory behind them).
pub struct Huge {
    pub len: usize,
    pub cap: usize,
    pub reserved: bool,
}
impl Slab for Huge {
    fn len(&self) -> usize {
        self.len
    }
    fn read_unchecked<T: SlabItem>(&self, _: Id<T>) -> T {
        unreachable!()
    }
    fn write_indexed<T: SlabItem>(&mut self, _: &T, i: usize) -> usize {
        i
    }
    fn write_indexed_slice<T: SlabItem>(&mut self, _: &[T], i: usize) -> usize {
        i
    }
}
impl GrowableSlab for Huge {
    fn capacity(&self) -> usize {
        self.cap
    }
    fn reserve_capacity(&mut self, capacity: usize) {
        self.reserved = true;
        self.cap = capacity;
    }
    fn increment_len(&mut self, n: usize) -> usize {
        let l = self.len;
        self.len += n;
        l
    }
}
pub fn expand_huge<S: Src>(s: &mut S) {
    let len = s.word() as usize;
    let cap = if s.flip() { len } else { len + s.below(1 << 20) as usize };
    let n = s.below(1 << 20) as usize;
    let mut h = Huge { len, cap, reserved: false };
    h.maybe_expand_to_fit::<[u32; 4]>(n);
    s.check(h.len == len, "expanding does not change the length");
    s.check(h.cap >= len + 4 * n, "after expanding, the capacity fits the length plus the items");
    s.check(h.cap >= cap, "expanding never shrinks the capacity");
}

// ---------------------------------------------------------------- C08

/// start and length of an array of `T` whose words lie within u32
fn array_of<T: Gen, S: Src>(s: &mut S) -> (u32, u32) {
    let w = T::WANT.max(1) as u64;
    match s.below(3) {
        0 => {
            let most = if s.below(64) == 63 { 1 << s.below(17) } else { 6 };
            let len = s.below(most);
            let start = s.below(1000);
            (start, len)
        }
        1 => {
            // up against the end of the address range
            let len = s.below(6);
            let room = u32::MAX as u64 - len as u64 * w;
            (room as u32 - s.below(4), len)
        }
        _ => {
            let start = s.word();
            let max = ((u32::MAX - start) as u64 / w).min(u32::MAX as u64 - 1) as u32;
            (start, s.below(max + 1))
        }
    }
}
pub fn array_handle<T: Gen, S: Src>(s: &mut S) {
    let (start, len) = array_of::<T, S>(s);
    s.note(|| format!("array start {start} len {len} of items of {} words", T::WANT));
    let a = Array::<T>::new(start, len);
    s.check(a.index == start && a.len == len, "new keeps start and length");
    s.check(a.len() == len as usize && a.starting_index() == start as usize, "len and starting_index");
    s.check(a.is_empty() == (len == 0), "is_empty exactly when the length is zero");
    s.check(a.is_null() == (start == u32::MAX), "is_null exactly at the null start");
    let k = match s.below(4) {
        0 => s.word() as usize,
        1 => len as usize,
        2 => (len as usize).saturating_sub(1),
        _ => s.below(len.max(1)) as usize,
    };
    let id = a.at(k);
    if k < len as usize {
        s.check(id.inner() as u64 == start as u64 + k as u64 * T::WANT as u64, "element k has id start + k * SLAB_SIZE");
    } else {
        s.check(id == Id::NONE && id.inner() == ID_NONE, "an element out of range is NONE");
    }
    let k = if s.flip() { usize::MAX } else { (1usize << 32) + s.below(5) as usize };
    s.check(a.at(k).is_none(), "an element far out of range is NONE");
    let b = a;
    s.check(a == b && a.clone() == b && !(a != b), "copies are equal");
    let mut c = Array::<T>::NONE;
    c.clone_from(&a);
    s.check(c.index == start && c.len == len, "clone_from copies");
    s.check((a == Array::new(start ^ 1, len)) == false, "arrays with another start differ");
    s.check((a == Array::new(start, len ^ 1)) == false, "arrays with another length differ");
    let w = a.into_u32_array();
    s.check(w.index == start && w.len as u64 == len as u64 * T::WANT as u64, "the word view covers the same words");
    // iteration
    if len <= 64 || (len <= 70_000 && s.below(256) == 255) {
        let mut it = a.iter();
        let mut i = 0;
        while i < len {
            s.check(
                it.next().map(|id| id.inner()) == Some((start as u64 + i as u64 * T::WANT as u64) as u32),
                "iteration yields the element ids in order",
            );
            i += 1;
        }
        s.check(it.next().is_none(), "iteration ends after the last element");
        s.check(it.next().is_none(), "iteration stays ended");
        // the rest of the iterator interface agrees with repeated `next`
        let all: Vec<u32> = (0..len).map(|i| (start as u64 + i as u64 * T::WANT as u64) as u32).collect();
        let n = len as usize;
        let ids = |v: Vec<Id<T>>| v.into_iter().map(|i| i.inner()).collect::<Vec<u32>>();
        s.check(ids(a.iter().collect()) == all, "collecting gives every element id in order");
        let taken = s.below(len + 1) as usize;
        let some = || {
            let mut it = a.iter();
            for _ in 0..taken {
                it.next();
            }
            it
        };
        let rest = &all[taken..];
        let (lo, hi) = some().size_hint();
        s.check(lo <= rest.len() && hi.map_or(true, |h| h >= rest.len()), "the size hint bounds the number of ids left");
        s.check(some().count() == rest.len(), "the count is the number of ids left");
        s.check(some().last().map(|i| i.inner()) == rest.last().copied(), "the last id is the last element's");
        let (j, k) = (s.below(len + 2) as usize, s.below(len + 2) as usize);
        let mut it = some();
        s.check(it.nth(j).map(|i| i.inner()) == rest.get(j).copied(), "nth gives the n-th id left");
        s.check(it.nth(k).map(|i| i.inner()) == rest.get(j + 1 + k).copied(), "nth passes the ids before it and its own");
        s.check(it.next().map(|i| i.inner()) == rest.get(j + k + 2).copied(), "next goes on after nth");
        s.check(ids(some().skip(j).collect()) == rest[j.min(rest.len())..], "skip leaves out the first ids");
        s.check(ids(some().step_by(k + 1).collect()) == rest.iter().copied().step_by(k + 1).collect::<Vec<_>>(), "step_by gives every k-th id");
        s.check(ids(some().fold(vec![], |mut v, i| { v.push(i); v })) == rest, "folding visits every id in order");
        let mut seen = vec![];
        some().for_each(|i| seen.push(i));
        s.check(ids(seen) == rest, "for_each visits every id in order");
        if n > 0 {
            let x = all[s.below(len) as usize];
            s.check(some().position(|i| i.inner() == x) == rest.iter().position(|i| *i == x), "position finds the first such id");
            s.check(some().any(|i| i.inner() == x) == rest.contains(&x) && some().find(|i| i.inner() == x).is_some() == rest.contains(&x), "any and find look at every id");
            s.check(some().max().map(|i| i.inner()) == rest.iter().copied().max() && some().min().map(|i| i.inner()) == rest.iter().copied().min(), "max and min look at every id");
        }
    }
    // conversions
    let id = Id::<T>::new(start);
    let one: Array<T> = id.into();
    s.check(one.index == start && one.len == 1, "an id converts to the array of that one element");
    s.check(Array::<T>::default() == Array::NONE && Array::<T>::NONE.is_null() && Array::<T>::NONE.is_empty(), "the default array is null and empty");
}
pub fn sub_slab<T: Gen, S: Src>(s: &mut S) {
    let n = few(s) as u32;
    let words: Vec<u32> = if s.below(512) == 511 { long(n as usize * T::WANT, s) } else { (0..n * T::WANT as u32 + s.below(5)).map(|_| s.word()).collect() };
    let at = s.below(words.len() as u32 - n * T::WANT as u32 + 1);
    let a = Array::<T>::new(at, n);
    let sub = a.sub_slab(&words);
    let (lo, hi) = (at as usize, at as usize + n as usize * T::WANT);
    s.check(sub.len() == hi - lo, "the sub-slab has exactly the array's words");
    s.check(sub == &words[lo..hi], "the sub-slab is the words of the array");
}
pub fn word_arrays<S: Src>(s: &mut S) {
    let (start, len) = array_of::<u32, S>(s);
    let (start2, len2) = match s.below(3) {
        0 => array_of::<u32, S>(s),
        1 => {
            // close by
            let st = start.saturating_sub(s.below(4)).saturating_add(s.below(8));
            (st, s.below(8).min(u32::MAX - st))
        }
        _ => (start, s.below(8).min(u32::MAX - start)),
    };
    s.note(|| format!("union of ({start},{len}) and ({start2},{len2})"));
    let a = Array::<u32>::new(start, len);
    let b = Array::<u32>::new(start2, len2);
    let mut u = a;
    u.union(&b);
    let lo = start.min(start2);
    let hi = (start as u64 + len as u64).max(start2 as u64 + len2 as u64);
    s.check(u.index == lo, "the union starts at the smaller start");
    s.check(u.index as u64 + u.len as u64 == hi, "the union ends at the larger end");
    let i = match s.below(5) {
        0 => s.word() as usize,
        1 => (start as u64 + len as u64) as usize,
        2 => start as usize,
        3 => (start as usize + s.below(8) as usize).saturating_add((1 << 32) << s.below(31)),
        _ => (start as usize + s.below(8) as usize).saturating_sub(4),
    };
    let want = i as u64 >= start as u64 && (i as u64) < start as u64 + len as u64;
    s.check(a.contains_index(i) == want, "contains_index exactly for the words of a word array");
}
pub fn ids<S: Src>(s: &mut S) {
    let x = if s.flip() { s.word() } else { u32::MAX - s.below(3) };
    let y = match s.below(3) {
        0 => s.word(),
        1 => x,
        _ => x ^ (1 << s.below(32)),
    };
    let a = Id::<u64>::new(x);
    let b = Id::<u64>::new(y);
    s.check(a.inner() == x && a.index() == x as usize && u32::from(a) == x, "inner, index and u32 conversion agree");
    s.check(Id::<u64>::from(x) == a && Id::<u64>::from(x as usize) == a, "ids convert from u32 and usize");
    s.check(a.is_none() == (x == u32::MAX) && a.is_some() == (x != u32::MAX), "only NONE is none");
    s.check(Id::<u64>::default().is_none() && Id::<u64>::NONE.inner() == u32::MAX, "the default id is NONE");
    s.check((a == b) == (x == y) && (a != b) == (x != y), "equality agrees with the index");
    s.check(a.cmp(&b) == x.cmp(&y) && a.partial_cmp(&b) == Some(x.cmp(&y)), "ordering agrees with the index");
    s.check(a.clone().inner() == x, "clones are equal");
    s.check((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "comparisons agree with the index");
    s.check(a.max(b).inner() == x.max(y) && a.min(b).inner() == x.min(y), "max and min agree with the index");
    let (lo, hi) = (a.min(b), a.max(b));
    let z = Id::<u64>::new(s.word());
    s.check(z.clamp(lo, hi).inner() == z.inner().clamp(x.min(y), x.max(y)), "clamp agrees with the index");
    let mut c = Id::<u64>::NONE;
    c.clone_from(&a);
    s.check(c.inner() == x, "clone_from copies");
    {
        use std::collections::hash_map::DefaultHasher;
        use std::hash::{Hash, Hasher};
        let h = |i: Id<u64>| {
            let mut h = DefaultHasher::new();
            i.hash(&mut h);
            h.finish()
        };
        if x == y {
            s.check(h(a) == h(b), "equal ids hash equally");
        }
    }
}
pub fn id_sums<S: Src>(s: &mut S) {
    let x = s.word();
    let d = match s.below(2) {
        0 => s.below(64).min(u32::MAX - x),
        _ => {
            let w = s.word();
            if w <= u32::MAX - x {
                w
            } else {
                0
            }
        }
    };
    s.note(|| format!("{x} + {d}"));
    let a = Id::<u64>::new(x);
    let sum = x + d;
    s.check((a + d).inner() == sum && (d + a).inner() == sum, "id + u32");
    s.check((a + d as usize).inner() == sum && (d as usize + a).inner() == sum, "id + usize");
    let o = Offset::<f32, u64>::new(d as usize);
    let f: Id<f32> = a + o;
    let g: Id<f32> = Offset::<f32, u64>::new(d as usize) + a;
    s.check(f.inner() == sum && g.inner() == sum, "id + offset and offset + id");
    let h: Id<f32> = Offset::<f32, u64>::new(d as usize).into();
    s.check(h.inner() == d && o_offset(Offset::new(d as usize)) == d, "an offset converts to the id at that offset");
}
fn o_offset(o: Offset<f32, u64>) -> u32 {
    o.offset
}

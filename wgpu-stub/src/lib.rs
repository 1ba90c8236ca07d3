//! The part of wgpu 24 that moves words between buffers, on memory instead of a device: signatures, order of
//! effects and validation as wgpu documents them. Work is done when it is submitted and *known* to be done only
//! after a poll that waits for it; nothing is mapped before that.
use std::collections::BTreeMap;
use std::num::NonZeroU64;
use std::ops::{Bound, Deref, DerefMut, Range, RangeBounds};
use std::sync::{Arc, Mutex};
pub use wgpu_types as wgt;
pub use wgpu_types::{BufferAddress, BufferSize, BufferUsages, Features, Limits, COPY_BUFFER_ALIGNMENT, MAP_ALIGNMENT};
pub use wgpu_types::Maintain as MaintainBase;
pub use wgpu_types::MaintainResult;

pub type Label<'a> = Option<&'a str>;
pub type BufferDescriptor<'a> = wgt::BufferDescriptor<Label<'a>>;
pub type CommandEncoderDescriptor<'a> = wgt::CommandEncoderDescriptor<Label<'a>>;
pub type CommandBufferDescriptor<'a> = wgt::CommandBufferDescriptor<Label<'a>>;
pub type Maintain = wgt::Maintain<SubmissionIndex>;

#[derive(Debug, Clone)]
pub struct SubmissionIndex { index: u64 }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum MapMode { Read, Write }
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct BufferAsyncError;
impl std::fmt::Display for BufferAsyncError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Error occurred when trying to async map a buffer") }
}
impl std::error::Error for BufferAsyncError {}

type Callback = Box<dyn FnOnce(Result<(), BufferAsyncError>) + Send>;

enum Map { Unmapped, Requested(Range<u64>, Option<Callback>), Mapped(Range<u64>) }
struct Inner { words: Vec<u32>, map: Map, views: Vec<Range<u64>>, last_use: u64, destroyed: bool }
#[derive(Clone)]
struct Copy { src: Buffer, from: u64, dst: Buffer, to: u64, n: u64 }
#[derive(Clone)]
enum Command { Copy(Copy), Clear(Buffer, u64, u64) }
#[derive(Default)]
struct State {
    ids: u64,
    submitted: u64,
    done: u64,
    writes: Vec<(Buffer, u64, Vec<u8>)>,
    mapping: BTreeMap<u64, Buffer>,
    done_callbacks: Vec<(u64, Box<dyn FnOnce() + Send>)>,
}

#[derive(Clone)]
pub struct Device { s: Arc<Mutex<State>> }
#[derive(Clone)]
pub struct Queue { s: Arc<Mutex<State>> }
#[derive(Clone)]
pub struct Buffer { s: Arc<Mutex<State>>, id: u64, inner: Arc<Mutex<Inner>>, size: u64, usage: BufferUsages }
impl std::fmt::Debug for Device { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Device") } }
impl std::fmt::Debug for Queue { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Queue") } }
impl std::fmt::Debug for Buffer { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Buffer {}", self.id) } }
impl PartialEq for Buffer { fn eq(&self, o: &Self) -> bool { self.id == o.id } }
impl Eq for Buffer {}

/// A device and its queue.
pub fn stub() -> (Device, Queue) {
    let s = Arc::new(Mutex::new(State::default()));
    (Device { s: s.clone() }, Queue { s })
}

fn invalid(what: String) -> ! { panic!("wgpu validation error: {what}") }
fn bytes(w: &[u32]) -> &[u8] { bytemuck::cast_slice(w) }

impl Device {
    pub fn create_buffer(&self, desc: &BufferDescriptor<'_>) -> Buffer {
        let u = desc.usage;
        if u.is_empty() { invalid("buffer without usages".into()) }
        if u.contains(BufferUsages::MAP_READ) && !(BufferUsages::MAP_READ | BufferUsages::COPY_DST).contains(u) {
            invalid("MAP_READ may only be combined with COPY_DST".into())
        }
        if u.contains(BufferUsages::MAP_WRITE) && !(BufferUsages::MAP_WRITE | BufferUsages::COPY_SRC).contains(u) {
            invalid("MAP_WRITE may only be combined with COPY_SRC".into())
        }
        if desc.mapped_at_creation && desc.size % 4 != 0 { invalid("mapped at creation with a size that is no multiple of 4".into()) }
        let mut s = self.s.lock().unwrap();
        s.ids += 1;
        Buffer {
            s: self.s.clone(),
            id: s.ids,
            inner: Arc::new(Mutex::new(Inner {
                words: vec![0; (desc.size as usize + 3) / 4],
                map: if desc.mapped_at_creation { Map::Mapped(0..desc.size) } else { Map::Unmapped },
                views: vec![],
                last_use: 0,
                destroyed: false,
            })),
            size: desc.size,
            usage: u,
        }
    }
    pub fn create_command_encoder(&self, _: &CommandEncoderDescriptor<'_>) -> CommandEncoder { CommandEncoder { cmds: vec![] } }
    pub fn poll(&self, maintain: Maintain) -> MaintainResult {
        let (calls, dones, empty) = {
            let mut s = self.s.lock().unwrap();
            match maintain {
                wgt::Maintain::WaitForSubmissionIndex(i) => {
                    if i.index > s.submitted { invalid("waiting for a submission that was not made".into()) }
                    s.done = s.done.max(i.index)
                }
                wgt::Maintain::Wait => s.done = s.submitted,
                // the device has not got any further
                wgt::Maintain::Poll => {}
            }
            let mut calls = vec![];
            let ids: Vec<u64> = s.mapping.keys().cloned().collect();
            for id in ids {
                let b = s.mapping[&id].clone();
                let mut i = b.inner.lock().unwrap();
                if i.last_use <= s.done {
                    if let Map::Requested(r, c) = std::mem::replace(&mut i.map, Map::Unmapped) {
                        i.map = Map::Mapped(r);
                        calls.extend(c);
                    }
                    s.mapping.remove(&id);
                }
            }
            let done = s.done;
            let (now, later): (Vec<_>, Vec<_>) = std::mem::take(&mut s.done_callbacks).into_iter().partition(|(k, _)| *k <= done);
            s.done_callbacks = later;
            (calls, now, s.done == s.submitted)
        };
        for c in calls { c(Ok(())) }
        for (_, c) in dones { c() }
        if empty { MaintainResult::SubmissionQueueEmpty } else { MaintainResult::Ok }
    }
    pub fn features(&self) -> Features { Features::empty() }
    pub fn limits(&self) -> Limits { Limits::default() }
    pub fn destroy(&self) {}
}

impl Queue {
    pub fn write_buffer(&self, buffer: &Buffer, offset: BufferAddress, data: &[u8]) {
        buffer.check_write(offset, data.len() as u64);
        self.s.lock().unwrap().writes.push((buffer.clone(), offset, data.to_vec()));
    }
    #[must_use]
    pub fn write_buffer_with<'a>(&'a self, buffer: &'a Buffer, offset: BufferAddress, size: BufferSize) -> Option<QueueWriteBufferView<'a>> {
        buffer.check_write(offset, size.get());
        Some(QueueWriteBufferView { queue: self, buffer, offset, data: vec![0; size.get() as usize] })
    }
    pub fn submit<I: IntoIterator<Item = CommandBuffer>>(&self, command_buffers: I) -> SubmissionIndex {
        let cmds: Vec<Command> = command_buffers.into_iter().flat_map(|c| c.cmds).collect();
        let mut s = self.s.lock().unwrap();
        s.submitted += 1;
        let k = s.submitted;
        for (b, offset, data) in std::mem::take(&mut s.writes) {
            let mut i = b.used(k);
            bytemuck::cast_slice_mut::<u32, u8>(&mut i.words)[offset as usize..offset as usize + data.len()].copy_from_slice(&data);
        }
        for c in cmds {
            match c {
                Command::Copy(c) => {
                    let part = bytes(&c.src.used(k).words)[c.from as usize..(c.from + c.n) as usize].to_vec();
                    let mut i = c.dst.used(k);
                    bytemuck::cast_slice_mut::<u32, u8>(&mut i.words)[c.to as usize..(c.to + c.n) as usize].copy_from_slice(&part);
                }
                Command::Clear(b, at, n) => {
                    let mut i = b.used(k);
                    bytemuck::cast_slice_mut::<u32, u8>(&mut i.words)[at as usize..(at + n) as usize].fill(0);
                }
            }
        }
        SubmissionIndex { index: k }
    }
    pub fn get_timestamp_period(&self) -> f32 { 1.0 }
    pub fn on_submitted_work_done(&self, callback: impl FnOnce() + Send + 'static) {
        let mut s = self.s.lock().unwrap();
        let k = s.submitted;
        s.done_callbacks.push((k, Box::new(callback)));
    }
}

pub struct QueueWriteBufferView<'a> { queue: &'a Queue, buffer: &'a Buffer, offset: u64, data: Vec<u8> }
impl Deref for QueueWriteBufferView<'_> { type Target = [u8]; fn deref(&self) -> &[u8] { &self.data } }
impl DerefMut for QueueWriteBufferView<'_> { fn deref_mut(&mut self) -> &mut [u8] { &mut self.data } }
impl AsMut<[u8]> for QueueWriteBufferView<'_> { fn as_mut(&mut self) -> &mut [u8] { &mut self.data } }
impl Drop for QueueWriteBufferView<'_> {
    fn drop(&mut self) { self.queue.s.lock().unwrap().writes.push((self.buffer.clone(), self.offset, std::mem::take(&mut self.data))); }
}

pub struct CommandEncoder { cmds: Vec<Command> }
pub struct CommandBuffer { cmds: Vec<Command> }
impl CommandEncoder {
    pub fn finish(self) -> CommandBuffer { CommandBuffer { cmds: self.cmds } }
    pub fn copy_buffer_to_buffer(&mut self, source: &Buffer, source_offset: BufferAddress, destination: &Buffer, destination_offset: BufferAddress, copy_size: BufferAddress) {
        if source.id == destination.id { invalid("source and destination of a copy are the same buffer".into()) }
        if !source.usage.contains(BufferUsages::COPY_SRC) { invalid("copy from a buffer without COPY_SRC".into()) }
        if !destination.usage.contains(BufferUsages::COPY_DST) { invalid("copy to a buffer without COPY_DST".into()) }
        if copy_size % 4 != 0 || source_offset % 4 != 0 || destination_offset % 4 != 0 { invalid("copy is not aligned to 4".into()) }
        if source_offset + copy_size > source.size { invalid(format!("copy of {source_offset}..{} overruns the source of size {}", source_offset + copy_size, source.size)) }
        if destination_offset + copy_size > destination.size { invalid(format!("copy to {destination_offset}..{} overruns the destination of size {}", destination_offset + copy_size, destination.size)) }
        self.cmds.push(Command::Copy(Copy { src: source.clone(), from: source_offset, dst: destination.clone(), to: destination_offset, n: copy_size }));
    }
    pub fn clear_buffer(&mut self, buffer: &Buffer, offset: BufferAddress, size: Option<BufferAddress>) {
        let n = size.unwrap_or(buffer.size.saturating_sub(offset));
        if !buffer.usage.contains(BufferUsages::COPY_DST) { invalid("clear of a buffer without COPY_DST".into()) }
        if offset % 4 != 0 || n % 4 != 0 { invalid("clear is not aligned to 4".into()) }
        if offset + n > buffer.size { invalid("clear overruns the buffer".into()) }
        self.cmds.push(Command::Clear(buffer.clone(), offset, n));
    }
    pub fn insert_debug_marker(&mut self, _: &str) {}
    pub fn push_debug_group(&mut self, _: &str) {}
    pub fn pop_debug_group(&mut self) {}
}

impl Buffer {
    fn check_write(&self, offset: u64, n: u64) {
        if !self.usage.contains(BufferUsages::COPY_DST) { invalid("write to a buffer without COPY_DST".into()) }
        if offset % 4 != 0 || n % 4 != 0 { invalid(format!("write of {n} bytes at {offset} is not aligned to 4")) }
        if offset + n > self.size { invalid(format!("write to {offset}..{} overruns the buffer of size {}", offset + n, self.size)) }
    }
    fn used(&self, k: u64) -> std::sync::MutexGuard<'_, Inner> {
        let mut i = self.inner.lock().unwrap();
        if i.destroyed { drop(i); invalid("a destroyed buffer is used".into()) }
        if !matches!(i.map, Map::Unmapped) { drop(i); invalid("a mapped buffer is used".into()) }
        i.last_use = k;
        i
    }
    pub fn slice<S: RangeBounds<BufferAddress>>(&self, bounds: S) -> BufferSlice<'_> {
        let offset = match bounds.start_bound() { Bound::Included(&b) => b, Bound::Excluded(&b) => b + 1, Bound::Unbounded => 0 };
        let size = match bounds.end_bound() { Bound::Included(&b) => Some(b + 1 - offset), Bound::Excluded(&b) => Some(b - offset), Bound::Unbounded => None }
            .map(|n| NonZeroU64::new(n).expect("Buffer slices can not be empty"));
        if offset >= self.size { panic!("slice offset {offset} is out of range for buffer of size {}", self.size) }
        if let Some(n) = size {
            if offset.checked_add(n.get()).map_or(true, |end| end > self.size) { panic!("slice offset {offset} size {n} is out of range for buffer of size {}", self.size) }
        }
        BufferSlice { buffer: self, offset, size }
    }
    pub fn unmap(&self) {
        let mut i = self.inner.lock().unwrap();
        assert!(i.views.is_empty(), "You cannot unmap a buffer that still has accessible mapped views");
        if let Map::Requested(_, c) = std::mem::replace(&mut i.map, Map::Unmapped) {
            drop(i);
            self.s.lock().unwrap().mapping.remove(&self.id);
            if let Some(c) = c { c(Err(BufferAsyncError)) }
        }
    }
    pub fn destroy(&self) { self.inner.lock().unwrap().destroyed = true; }
    pub fn size(&self) -> BufferAddress { self.size }
    pub fn usage(&self) -> BufferUsages { self.usage }
    /// Not of wgpu: the words that the device has after everything submitted.
    pub fn peek(&self) -> Vec<u32> { self.inner.lock().unwrap().words.clone() }
}

#[derive(Copy, Clone, Debug)]
pub struct BufferSlice<'a> { buffer: &'a Buffer, offset: u64, size: Option<BufferSize> }
impl<'a> BufferSlice<'a> {
    fn range(&self) -> Range<u64> { self.offset..self.size.map_or(self.buffer.size, |n| self.offset + n.get()) }
    pub fn map_async(&self, mode: MapMode, callback: impl FnOnce(Result<(), BufferAsyncError>) + Send + 'static) {
        let need = match mode { MapMode::Read => BufferUsages::MAP_READ, MapMode::Write => BufferUsages::MAP_WRITE };
        if !self.buffer.usage.contains(need) { invalid("mapping a buffer without the usage for it".into()) }
        let r = self.range();
        if r.start % MAP_ALIGNMENT != 0 || r.end % 4 != 0 { invalid("mapped range is not aligned".into()) }
        let mut s = self.buffer.s.lock().unwrap();
        let mut i = self.buffer.inner.lock().unwrap();
        if !matches!(i.map, Map::Unmapped) { drop(i); drop(s); panic!("Buffer is already mapped") }
        i.map = Map::Requested(r, Some(Box::new(callback)));
        s.mapping.insert(self.buffer.id, self.buffer.clone());
    }
    fn view(&self) -> (Range<u64>, Vec<u32>) {
        let r = self.range();
        let mut i = self.buffer.inner.lock().unwrap();
        let ok = matches!(&i.map, Map::Mapped(m) if m.start <= r.start && r.end <= m.end);
        let apart = i.views.iter().all(|v| r.end <= v.start || r.start >= v.end);
        if !ok { drop(i); panic!("the range is not mapped") }
        if !apart { drop(i); panic!("Intersecting map range") }
        i.views.push(r.clone());
        let w = i.words[(r.start / 4) as usize..(r.end / 4) as usize].to_vec();
        (r, w)
    }
    pub fn get_mapped_range(&self) -> BufferView<'a> {
        let (range, words) = self.view();
        BufferView { buffer: self.buffer, range, words }
    }
    pub fn get_mapped_range_mut(&self) -> BufferViewMut<'a> {
        let (range, words) = self.view();
        BufferViewMut { buffer: self.buffer, range, words }
    }
}
pub struct BufferView<'a> { buffer: &'a Buffer, range: Range<u64>, words: Vec<u32> }
impl Deref for BufferView<'_> { type Target = [u8]; fn deref(&self) -> &[u8] { bytes(&self.words) } }
impl AsRef<[u8]> for BufferView<'_> { fn as_ref(&self) -> &[u8] { bytes(&self.words) } }
impl Drop for BufferView<'_> { fn drop(&mut self) { self.buffer.inner.lock().unwrap().views.retain(|v| *v != self.range); } }
pub struct BufferViewMut<'a> { buffer: &'a Buffer, range: Range<u64>, words: Vec<u32> }
impl Deref for BufferViewMut<'_> { type Target = [u8]; fn deref(&self) -> &[u8] { bytes(&self.words) } }
impl DerefMut for BufferViewMut<'_> { fn deref_mut(&mut self) -> &mut [u8] { bytemuck::cast_slice_mut(&mut self.words) } }
impl AsMut<[u8]> for BufferViewMut<'_> { fn as_mut(&mut self) -> &mut [u8] { bytemuck::cast_slice_mut(&mut self.words) } }
impl Drop for BufferViewMut<'_> {
    fn drop(&mut self) {
        let mut i = self.buffer.inner.lock().unwrap();
        let at = (self.range.start / 4) as usize;
        i.words[at..at + self.words.len()].copy_from_slice(&self.words);
        i.views.retain(|v| *v != self.range);
    }
}

pub mod util {
    use super::*;
    pub struct BufferInitDescriptor<'a> { pub label: Label<'a>, pub contents: &'a [u8], pub usage: BufferUsages }
    pub trait DeviceExt { fn create_buffer_init(&self, desc: &BufferInitDescriptor<'_>) -> Buffer; }
    impl DeviceExt for Device {
        fn create_buffer_init(&self, d: &BufferInitDescriptor<'_>) -> Buffer {
            let n = d.contents.len() as u64;
            let size = if n == 0 { 0 } else { ((n + 3) & !3).max(4) };
            let b = self.create_buffer(&BufferDescriptor { label: d.label, size, usage: d.usage, mapped_at_creation: false });
            bytemuck::cast_slice_mut::<u32, u8>(&mut b.inner.lock().unwrap().words)[..n as usize].copy_from_slice(d.contents);
            b
        }
    }
    pub struct DownloadBuffer { words: Vec<u32> }
    impl DownloadBuffer {
        pub fn read_buffer(device: &Device, queue: &Queue, slice: &BufferSlice<'_>, callback: impl FnOnce(Result<Self, BufferAsyncError>) + Send + 'static) {
            let r = slice.range();
            let b = device.create_buffer(&BufferDescriptor { label: None, size: r.end - r.start, usage: BufferUsages::COPY_DST | BufferUsages::MAP_READ, mapped_at_creation: false });
            let mut e = device.create_command_encoder(&CommandEncoderDescriptor { label: None });
            e.copy_buffer_to_buffer(slice.buffer, r.start, &b, 0, r.end - r.start);
            queue.submit(Some(e.finish()));
            let c = b.clone();
            b.slice(..).map_async(MapMode::Read, move |res| callback(res.map(|_| DownloadBuffer { words: c.peek() })));
        }
    }
    impl Deref for DownloadBuffer { type Target = [u8]; fn deref(&self) -> &[u8] { bytes(&self.words) } }
    pub fn align_to<T: std::ops::Add<Output = T> + std::ops::Sub<Output = T> + std::ops::Rem<Output = T> + Default + PartialEq + std::marker::Copy>(value: T, alignment: T) -> T {
        let r = value % alignment;
        if r == T::default() { value } else { value + (alignment - r) }
    }
}

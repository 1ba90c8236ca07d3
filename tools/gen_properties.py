#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
S='crates/crabslab/src/'; A='crates/craballoc/src/'; D='crates/crabslab-derive/src/lib.rs'
IMPL=[S+'impl_slab_item/mod.rs',S+'impl_slab_item/primitives.rs',S+'impl_slab_item/tuples.rs',S+'impl_slab_item/glam.rs',S+'id.rs',S+'array.rs']

p('C01','Built-in values read back exactly as written',
  'Writing a value of any built-in slab type (every integer width including 64 and 128 bit, f32/f64 compared bit for bit, bool, Id, Array, Option, fixed-size arrays, tuples up to 13 elements, PhantomData, the glam vectors, quaternion and matrix) at an index where it fits, and reading the same type back at that index, yields the value that was written, whatever words the slab held before.',
  ['inputs'],'every value of every built-in type, every index at which it fits, every previous content of the slab, every nesting of the composite types',
  'The tests write a handful of small values (5, -5, 1.0, None/Some once); bit patterns in the upper words of 64/128-bit integers, NaN payloads, stale words under an Option, and deep nestings are never sampled.',
  IMPL+[D],[('SlabItem::write_slab / read_slab per type','crates/crabslab/src/impl_slab_item/'),('impl_slabitem_tuples',D)],
  observe=['SlabItem::read_slab after SlabItem::write_slab','Slab::read after Slab::write'])
p('C02','Built-in values occupy exactly SLAB_SIZE words and touch no others',
  'For every built-in slab type, writing a value at index i where it fits changes no word outside i..i+SLAB_SIZE and returns i+SLAB_SIZE, so that consecutive writes pack without gaps or overlap; reading at i depends only on those SLAB_SIZE words. The size of a composite is the size of its parts: a tuple is the sum of its elements, a fixed-size array is N times its element, an Option is one more than its payload, PhantomData is zero.',
  ['inputs'],'every value of every built-in type, every index, every slab length and content',
  'A stray write one word past the end, or a read of a neighbour, is only visible with specific neighbours; tests check values only and pack them by hand in one layout.',
  IMPL+[D],[('const SLAB_SIZE, write_slab return value, read_slab offsets','crates/crabslab/src/impl_slab_item/'),('tuple impl generator',D)],
  observe=['slab words before and after write_slab','returned index'])
p('C03','Derived items round-trip, stay in their footprint and tolerate bad tags',
  'For every struct or enum whose slab implementation is derived, a value written where it fits reads back equal, the write changes no word outside its SLAB_SIZE words and returns the index plus SLAB_SIZE, where SLAB_SIZE is the sum of the field sizes for a struct and one plus the largest variant payload for an enum. Fields are laid out in declaration order; an enum stores the declaration-order number of its variant in its first word, and reading an enum whose first word is no variant number yields its Default value.',
  ['programs','inputs'],'every derivable struct or enum shape (named, tuple, unit variants, generics, nesting), every field type, every value, every index and previous slab content, every word in the tag position',
  'Tests derive four concrete types and write a value per variant into a zeroed slab; other shapes, generic types, stale words and unknown tags are never exercised.',
  [D],[('derive_from_slab_struct / derive_from_slab_enum / get_enum_params',D)],
  observe=['SLAB_SIZE, read_slab and write_slab of derived types'])
p('C04','Derived field offsets address the field inside the written value',
  'For every struct deriving slab storage with offsets, adding a field\'s OFFSET_OF constant to the id of a stored value gives an id of the field\'s type at which reading yields that field and writing changes exactly that field of the value read back; SLAB_SIZE_OF constants equal the field type\'s SLAB_SIZE. Id+offset and offset+id give the same id.',
  ['programs','inputs'],'every struct shape (named and tuple, any number and size of fields), every value, every id at which the value fits',
  'The only examples are doc tests with one struct; offsets after multi-word fields or of later fields are not sampled.',
  [D,S+'offset.rs'],[('OFFSET_OF_* / SLAB_SIZE_OF_* generation',D),('Offset + Id','crates/crabslab/src/offset.rs')],
  observe=['Slab::read(id + T::OFFSET_OF_x)','Slab::write(id + T::OFFSET_OF_x, ..)'])
p('C05','Checked reads never fail and fall back to the default exactly when out of range',
  'A slab contains an id exactly when the whole SLAB_SIZE words starting at the id lie within the slab\'s length; a checked read of any id, including NONE and ids near the integer limits, never panics, returns the stored value when contained and the type\'s Default otherwise. Reading into an existing value leaves it untouched when the id is NONE and replaces it with the stored value when the id is contained; all of this is the same for slices, vectors and the CPU slab wrapper.',
  ['inputs'],'every slab length and content, every id value from 0 to u32::MAX, every item type including zero-sized ones',
  'Tests ask about five ids on a three-word slab; boundary ids for multi-word types, empty slabs and wrap-around ids are not covered.',
  [S+'slab.rs',S+'id.rs'],[('Slab::contains, Slab::read, Slab::read_into_if_some','crates/crabslab/src/slab.rs'),('delegating impls for [u32], Vec<u32>, CpuSlab','crates/crabslab/src/slab.rs')],
  observe=['return values of contains/read/read_into_if_some'])
p('C06','Slice writes and array reads place every element at its own stride',
  'Writing a slice of n items at index i stores item k at i + k*SLAB_SIZE, leaves every word outside i..i+n*SLAB_SIZE unchanged and returns i + n*SLAB_SIZE. Writing an array with data of the same length stores item k where the array\'s k-th id points, writing an array with fewer items than its length changes nothing, and reading an array yields exactly its length of items, the k-th being a checked read of the k-th id.',
  ['inputs'],'every slice length, item type and value, index and slab content; every array descriptor including ones partly or wholly out of range',
  'Tests use three fixed slices; strides of multi-word items, short data, empty slices and partly out-of-range arrays are not sampled.',
  [S+'slab.rs',S+'array.rs'],[('Slab::write_indexed_slice, Slab::write_array, Slab::read_vec','crates/crabslab/src/slab.rs'),('Array::at','crates/crabslab/src/array.rs')],
  observe=['slab words, returned index, read_vec result'])
p('C07','Appending and allocating on a growable slab never disturbs earlier items',
  'On a growable CPU slab each append or allocation returns a handle to fresh words that start at the previous length, extends the length by exactly the words needed, keeps the capacity at least the length, and leaves all earlier words unchanged; allocated words read as zero until written and appended values read back equal. This holds through any number of reallocations and any mixture of single and array operations; an empty array allocation returns the null array and changes nothing, and reserving a capacity makes the capacity at least that much without changing any word.',
  ['inputs','histories'],'every sequence of append, append_array, allocate, allocate_array and write on CPU slabs with any initial content and capacity, with item types of any size including zero',
  'Tests append two items to an empty slab; growth boundaries, non-empty initial buffers and mixed histories are not reached.',
  [S+'slab.rs'],[('GrowableSlab::maybe_expand_to_fit, allocate, allocate_array, append, append_array','crates/crabslab/src/slab.rs'),('GrowableSlab for Vec<u32>','crates/crabslab/src/slab.rs')],
  state=[('len/capacity','words in use and reserved','crates/crabslab/src/slab.rs GrowableSlab')],
  observe=['returned Id/Array, len, capacity, words'])
p('C08','Array and id handle arithmetic addresses exactly the described elements',
  'For an array handle of n items of type T starting at word s, element k<n has id s + k*SLAB_SIZE and any k>=n gives the NONE id; iteration yields those n ids in order and then ends; the word view has length n*SLAB_SIZE at the same start and the sub-slab is exactly those words; the union of two word arrays is the smallest array covering both; for word arrays contains_index holds exactly for s..s+n. Adding integers or offsets to ids adds to the word index, only the NONE value reports being none, default handles are the null ones, and conversions, equality and ordering agree with the word index.',
  ['inputs'],'every start, length, element index and item type for which the covered words lie within the u32 range',
  'Tests use two array handles with one element size; large indices, out-of-range elements, unions and sub-slabs are not sampled.',
  [S+'array.rs',S+'id.rs',S+'offset.rs'],[('Array methods, ArrayIter','crates/crabslab/src/array.rs'),('Id arithmetic and conversions','crates/crabslab/src/id.rs'),('Offset addition','crates/crabslab/src/offset.rs')],
  observe=['results of Array, ArrayIter, Id and Offset operations'])
p('C09','The free-range manager never loses, duplicates or invents free words',
  'A manager of free ranges always represents exactly the set of indices added and not yet removed: adding a range disjoint from the set inserts exactly its indices, and removing count>0 either returns one contiguous range of exactly count indices that were free and takes exactly those out, or returns nothing, changes nothing and only when no managed range is that long; removing zero returns nothing. The managed ranges stay pairwise disjoint, and as long as ranges are only added disjointly no two managed ranges touch, so that adjacent free space is always coalesced.',
  ['inputs','histories'],'every sequence of additions of disjoint ranges and removals of any count, over any indices',
  'One unit test adds a few ranges in one order; merging on both sides, exact fits, removals that shrink and orders of insertion are histories the tests do not reach.',
  [A+'range.rs'],[('RangeManager::add_range, RangeManager::<Range>::remove','crates/craballoc/src/range.rs'),('Range::should_merge_with/union/intersects/len','crates/craballoc/src/range.rs')],
  state=[('ranges','the managed free ranges','crates/craballoc/src/range.rs RangeManager')],
  observe=['RangeManager::ranges, result of remove'])
p('C10','Merged updates apply exactly like the original updates in order',
  'Adding updates one after another to an update manager and then writing the managed updates to a buffer, in any order, leaves the buffer exactly as if every update had been written in the order it was added: where updates overlap the newest wins and no other word changes. The managed updates are pairwise disjoint and each carries exactly as many elements as its array has words.',
  ['inputs','histories'],'every sequence of non-empty updates (each with as many elements as its array is long), with any overlaps, containments and bridges',
  'Tests merge at most two updates; bridging updates, containment and repeated overlaps need specific geometry.',
  [A+'range.rs',A+'runtime.rs'],[('IsRange for SlabUpdate: should_merge_with, union','crates/craballoc/src/range.rs'),('SlabUpdate::intersects','crates/craballoc/src/runtime.rs'),('RangeManager::add_range','crates/craballoc/src/range.rs')],
  observe=['RangeManager<SlabUpdate>::ranges, contents of a CPU buffer after buffer_write'])
p('C11','Live allocations never overlap and always fit the committed buffer',
  'In every single-threaded history of creating values and arrays of any sizes, cloning, dropping and committing on an allocator, the words of distinct live values never overlap, and after a commit they all lie inside the committed buffer. The words of a value are not handed out again while any handle to it that keeps it alive exists, nor before a commit that follows the drop of the last such handle.',
  ['histories','inputs'],'every finite single-threaded history of allocator operations with values of any size (including zero words and empty arrays)',
  'Tests allocate a few values in one order; overlap after recycling, splitting and coalescing needs particular histories.',
  [A+'slab.rs',A+'range.rs',A+'value.rs'],[('SlabAllocator::allocate / allocate_array / maybe_expand_to_fit','crates/craballoc/src/slab.rs'),('drain_updated_sources recycling','crates/craballoc/src/slab.rs'),('RangeManager','crates/craballoc/src/range.rs'),('Gpu/GpuArray Drop and Clone','crates/craballoc/src/value.rs')],
  state=[('len, capacity','high-water mark and buffer size','crates/craballoc/src/slab.rs SlabAllocator'),('recycles','free ranges','crates/craballoc/src/slab.rs'),('update_sources','live values by id','crates/craballoc/src/slab.rs')],
  observe=['id() / array() of live handles','length of the committed buffer'])
p('C12','Dropped space is reclaimed at the next commit and reused before growing',
  'When the last handle keeping a value or array alive is dropped, the next commit returns its words to the free space exactly once, and adjacent free words coalesce into larger free ranges. A later value or array that fits in a free range is placed in free words instead of extending the slab, so histories that keep the live set bounded and commit keep the buffer bounded.',
  ['histories','inputs'],'every finite single-threaded history of creates, clones, drops and commits, with values of any size',
  'Tests recycle one array in one order; leaks and double frees need histories mixing sizes, clones and drop orders.',
  [A+'slab.rs',A+'range.rs',A+'value.rs'],[('drain_updated_sources','crates/craballoc/src/slab.rs'),('defrag','crates/craballoc/src/slab.rs'),('Drop for Gpu and GpuArray','crates/craballoc/src/value.rs'),('RangeManager::remove','crates/craballoc/src/range.rs')],
  observe=['ids of new values after drops and commits','length of the committed buffer'])
p('C13','After a commit the buffer holds the latest value of every live item',
  'After a commit, the committed buffer holds at the words of every live value, and of every element of every live array, the encoding of the most recently set value, no matter how many sets, modifications, guard mutations, element updates, clones, drops, recyclings and earlier commits happened before or in which order. Words belonging to no updated value keep their previous content, and values that were never changed again stay as they were committed.',
  ['histories','inputs'],'every finite single-threaded history of creates, sets, modifies, guard writes, element sets, drops and commits with values of any type',
  'Tests commit a few single updates; overlapping whole-array and element updates, several updates between commits and reuse of recycled words need particular histories.',
  [A+'value.rs',A+'slab.rs',A+'range.rs',A+'runtime.rs'],[('Gpu::set, GpuArray::set_item, Hybrid::modify, HybridWriteGuard','crates/craballoc/src/value.rs'),('commit, drain_updated_sources','crates/craballoc/src/slab.rs'),('CpuRuntime::buffer_write','crates/craballoc/src/runtime.rs')],
  observe=['contents of the CPU buffer returned by commit compared with Hybrid::get'])
p('C14','Growing preserves contents, and stale buffers are detected and refreshed',
  'When a commit has to grow the buffer, the new buffer starts with the old buffer\'s contents (then receives the pending updates), and a commit without growth keeps using the same buffer. A buffer handle reports invalid exactly when a later commit has replaced the buffer; updating an invalid handle returns true and makes it the buffer currently in use, updating a valid one returns false and changes nothing, and a handle reports being new exactly during the commit that created it.',
  ['histories'],'every finite single-threaded history of creates, drops and commits, with handles obtained and refreshed at any points',
  'Tests hold at most one old handle across one growth; several growths, handles of different ages and refresh orders are not reached.',
  [A+'slab.rs',A+'runtime.rs'],[('SlabAllocator::commit, recreate_buffer','crates/craballoc/src/slab.rs'),('SlabBuffer validity methods','crates/craballoc/src/slab.rs'),('CpuRuntime::buffer_copy','crates/craballoc/src/runtime.rs')],
  state=[('invalidation_k, invocation_k, buffer_creation_k','commit counters','crates/craballoc/src/slab.rs')],
  observe=['SlabBuffer::is_valid/is_invalid/update_if_invalid/is_new_this_commit, buffer contents'])
p('C15','Every handle to a value sees the same value and keeps it alive',
  'All clones of a hybrid value or array, and handles upgraded from weak ones, share one CPU value and one id: a set, modify or guard mutation through any of them is what every other one gets, modify returns its closure\'s result and a guard that is not mutated queues no update. Weak handles do not keep a value alive: upgrading succeeds exactly while a strong hybrid handle exists, and the strong count is the number of handles keeping the value alive. Out-of-range element access on arrays returns nothing and changes nothing.',
  ['histories','inputs'],'every finite single-threaded history of clones, weak handles, upgrades, drops, sets, modifies and guard uses, for values and arrays',
  'Tests exercise one clone and one guard; combinations of weak, clone and GPU-only handles are histories the tests do not reach.',
  [A+'value.rs'],[('Hybrid, HybridArray, WeakHybrid, WeakGpu, HybridWriteGuard','crates/craballoc/src/value.rs')],
  observe=['get/ref_count/strong_count/upgrade results','has_queued_updates after guards'])
p('C16','Reading a buffer range returns exactly the words the bounds denote',
  'Reading from a CPU buffer with any combination of included, excluded or unbounded start and end that denotes a range within the buffer returns exactly the words of that range in order, where an excluded start begins after it, an included end is part of the range and unbounded ends extend to the ends of the buffer. Reading does not change the buffer.',
  ['inputs'],'every buffer length and content, every pair of bounds of every kind that lies within the buffer (including empty ranges)',
  'No test reads through bounds other than one half-open range.',
  [A+'runtime.rs'],[('range_to_indices_and_len','crates/craballoc/src/runtime.rs'),('CpuRuntime::buffer_read','crates/craballoc/src/runtime.rs')],
  observe=['IsRuntime::buffer_read on CpuRuntime'])
p('C17','Pending-update queries report exactly the sources changed since the last commit',
  'The allocator reports queued updates exactly when some value or array was created, set, modified, mutated through a guard or lost a handle since the last commit, and the set of updated source ids is exactly the ids of those values and arrays; asking does not consume the updates, so a following commit still writes them. Source ids are unique per value or array, shared by its clones and weak handles, and after a commit nothing is queued and a further commit leaves the buffer unchanged.',
  ['histories'],'every finite single-threaded history of creates, updates, drops, queries and commits',
  'Tests query in three fixed situations; queries between updates and commits in arbitrary orders are not sampled.',
  [A+'slab.rs',A+'value.rs'],[('get_updated_source_ids, has_queued_updates, drain_updated_sources','crates/craballoc/src/slab.rs'),('notifier sends in Gpu/GpuArray','crates/craballoc/src/value.rs')],
  state=[('notifier, update_queue','channel and set of updated ids','crates/craballoc/src/slab.rs')],
  observe=['has_queued_updates, get_updated_source_ids, notifier_index'])
p('C18','Concurrent use of clones of an allocator loses and corrupts nothing',
  'When several threads create, update, clone and drop values through clones of one allocator while commits happen, live values never overlap and always fit the buffer of a later commit, and once the threads have finished a commit leaves every live value\'s latest state in the buffer and reclaims everything that was dropped.',
  ['schedules','histories'],'every interleaving of any number of threads using one allocator',
  'The tests are single-threaded.',
  [A+'slab.rs',A+'value.rs'],[('Arc/RwLock/atomic/channel protected state','crates/craballoc/src/slab.rs')],
  observe=['ids and buffer contents after threads join'])
p('C19','The wgpu runtime keeps and returns the same words as the CPU runtime',
  'Through the wgpu runtime a new buffer holds the requested number of words, all zero; copying a buffer into one that is at least as large replaces the beginning of that one and leaves its rest; writing updates in order leaves exactly their words at their places and all others as they were; and reading any range within the buffer, also an empty one, returns exactly the words of the range, waits until they are there, and changes nothing. So for the same history of allocator operations commits leave the same words in the GPU buffer as in the CPU buffer. SlabAllocator::read returns the words of a range of the committed buffer (an unbounded end is the length of the slab), read_array the values of an array in it, and both report an error as long as there is no buffer. Every request to the device is one that wgpu accepts.',
  ['histories','inputs','configurations'],'every history of allocator operations, every buffer size and content, every list of updates, every range and array within the committed buffer, on every device that behaves as wgpu documents',
  'No test runs on a GPU.',
  [A+'runtime.rs',A+'slab/wgpu_slab.rs'],[('IsRuntime for WgpuRuntime','crates/craballoc/src/runtime.rs'),('SlabAllocator<WgpuRuntime>::read/read_array','crates/craballoc/src/slab/wgpu_slab.rs')],
  observe=['IsRuntime on WgpuRuntime','SlabAllocator::read, read_array'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')

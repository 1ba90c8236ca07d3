"""Which contracts decide which property."""

SLAB_READ = ("len", "is_empty", "contains", "read", "read_unchecked", "read_into_if_some")
SLAB_WRITE = ("write_indexed", "write_indexed_slice", "write", "write_array", "read_vec", "len", "read_unchecked")

def name(i): return i.rsplit(" :: ", 1)[-1]
def item(i): return "impl SlabItem for" in i or i.startswith("lemma ")
def handle(i): return not item(i)
def slab(names): return lambda i: i.startswith("lemma ") or ((":: trait Slab ::" in i or ":: impl Slab for" in i) and name(i) in names)
def grow(i): return not slab(SLAB_READ + SLAB_WRITE)(i) or i.startswith("lemma ")
def offsets(i): return name(i).startswith(("OFFSET_OF", "SLAB_SIZE_OF")) or i.startswith("lemma offset_")
def shape(i): return not offsets(i)
def offset_handles(i): return "Offset<" in i

SIZES = "usize is not assumed to be 64 bits wide; every SLAB_SIZE and array length is assumed to fit a usize, every Vec length to be addressable"
GLAM = "glam is not verified: its vector types are stand-ins with the same fields, whose constructors are assumed to set the fields"
FLOAT = "f32/f64 to_bits/from_bits are assumed to be inverse on bit patterns (vstd has no float bit model)"

PROPS = {
    "C01": {"units": [("core", item)], "level": "proof", "bounded": [], "bounded_only": False, "assumptions": [SIZES, GLAM, FLOAT]},
    "C02": {"units": [("core", item)], "level": "proof", "bounded": [], "bounded_only": False, "assumptions": [SIZES, GLAM]},
    "C03": {"units": [("derived", shape)], "level": "proof", "bounded_only": False,
            "bounded": ["the derive macros are verified on 41 generic shapes (19 structs, 22 enums), for all field types and values; other shapes are not expanded"],
            "assumptions": [SIZES]},
    "C04": {"units": [("derived", offsets), ("core", offset_handles)], "level": "proof", "bounded_only": False,
            "bounded": ["verified on the 19 struct shapes, for all field types and values"], "assumptions": [SIZES]},
    "C05": {"units": [("slabs", slab(SLAB_READ))], "level": "proof", "bounded": [], "bounded_only": False, "assumptions": [SIZES]},
    "C06": {"units": [("slabs", slab(SLAB_WRITE))], "level": "proof", "bounded": [], "bounded_only": False, "assumptions": [SIZES]},
    "C07": {"units": [("slabs", grow)], "level": "proof", "bounded": [], "bounded_only": False,
            "assumptions": [SIZES, "Vec::reserve makes the capacity at least the requested one and Vec::extend with zeros appends zeros"]},
    "C08": {"units": [("core", handle)], "level": "proof", "bounded": [], "bounded_only": False, "assumptions": [SIZES]},
}
def free_ranges(i): return "SlabUpdate" not in i and (not i.startswith("lemma ") or i in ("lemma lemma_shrink", "lemma lemma_merge", "lemma lemma_push", "lemma lemma_swap_removed"))
def updates(i): return "SlabUpdate" in i or i.startswith("lemma ") or "add_range" in i
INDICES = "ranges end below u32::MAX and an array starts so that it ends at or below it (the code's u32 arithmetic)"
PROPS["C09"] = {"units": [("ranges", free_ranges)], "level": "proof", "bounded": [], "bounded_only": False, "assumptions": [INDICES,
                "Range::from of an empty array is outside its precondition: the allocator never calls it so"]}
PROPS["C10"] = {"units": [("ranges", updates)], "level": "proof", "bounded": [], "bounded_only": False, "assumptions": [INDICES,
                "updates carry as many elements as their array has words, as every caller in craballoc makes them"]}

# craballoc: which functions carry a property (their contracts state it, or keep the invariant it rests on)
def fns(*names, lemmas=()):
    return lambda i: (name(i) in names or any(i.endswith(" :: " + n) for n in names)) if not i.startswith("lemma ") else i[6:] in lemmas
HANDLES = ("impl Clone for Gpu<T> :: clone", "impl Clone for WeakGpu<T> :: clone", "impl Clone for GpuArray<T> :: clone", "impl Clone for Hybrid<T> :: clone",
           "impl Clone for WeakHybrid<T> :: clone", "impl Clone for HybridArray<T> :: clone", "upgrade", "from_hybrid", "into_gpu_only", "weak_gpu",
           "impl WeakGpu<T> :: from_gpu", "impl WeakGpuRef :: from_gpu", "from_gpu_array")
DROPS = ("impl Drop for Gpu<T> :: drop", "impl Drop for GpuArray<T> :: drop")
MAKERS = ("new_value", "new_array", "impl Gpu<T> :: new", "impl GpuArray<T> :: new", "impl Hybrid<T> :: new", "impl HybridArray<T> :: new",
          "insert_update_source", "next_update_k", "allocate", "allocate_array", "increment_len", "maybe_expand_to_fit", "reserve_capacity",
          "impl SlabAllocator<R> :: new", "new_with_label", "impl SlabAllocator<R> :: len", "impl SlabAllocator<R> :: capacity")
COMMITS = ("commit", "upkeep", "drain_updated_sources", "get_update", "get_updated_source_ids", "get_buffer", "recreate_buffer")
SETTERS = ("impl Gpu<T> :: set", "impl Hybrid<T> :: set", "impl Hybrid<T> :: modify", "impl Hybrid<T> :: lock", "set_item", "impl HybridArray<T> :: modify",
           "impl HybridWriteGuard<'a,T> :: new", "impl Deref for HybridWriteGuard<'_,T> :: deref",
           "impl DerefMut for HybridWriteGuard<'_,T> :: deref_mut", "impl Drop for HybridWriteGuard<'_,T> :: drop")
IDS = ("id", "notifier_index", "array", "get_id", "impl GpuArray<T> :: len", "impl GpuArray<T> :: is_empty", "impl HybridArray<T> :: len", "impl HybridArray<T> :: is_empty")
RUNTIME = ("buffer_create", "buffer_copy", "buffer_write")
BUFFERS = ("impl SlabBuffer<T> :: new", "invalidation_k", "invocation_k", "creation_time", "is_invalid", "is_valid", "is_new_this_commit", "is_new_this_upkeep",
           "update_if_invalid", "synchronize", "impl Clone for SlabBuffer<T> :: clone", "impl Deref for SlabBuffer<T> :: deref")
READS = ("impl Hybrid<T> :: get", "impl HybridArray<T> :: get", "get_vec", "ref_count", "impl WeakHybrid<T> :: strong_count", "has_external_references")
UPD = ("lemma_apply_upd", "lemma_upd_concat", "lemma_upd_none", "lemma_upd_some", "lemma_upd_holds", "lemma_covers_inside", "lemma_take_step", "lemma_done", "lemma_insert_same")
STEP = ("lemma_step", "lemma_step_new", "lemma_step_set", "lemma_step_set_item", "lemma_step_clone", "lemma_step_drop", "lemma_run_good", "lemma_born",
        "lemma_born_others", "lemma_told", "lemma_shared", "lemma_dropped")
BOUND = ("lemma_one_range", "lemma_reused", "lemma_count_range", "lemma_count_ranges", "lemma_count_sources", "lemma_few_ranges", "lemma_not_long", "lemma_run_bounded")
HEAP = "std::sync (Arc, Weak, Mutex, RwLock, atomics), async_channel and rustc_hash are not verified: assumed contracts over a heap of cells that the extraction " \
       "passes explicitly (verus/heap.tmpl); one thread, locks do not poison, no guard is held across another operation on the same allocator"
GLUE = "drop glue is assumed: a handle's drop function runs, then its fields are dropped in order, each Arc lowering its count by one"
LIMITS = "craballoc is verified for a 64-bit usize; counters do not overflow and a slab does not exceed u32::MAX words (preconditions of the contracts)"
RUN = "contracts hold for every runtime that meets the IsRuntime contract; both in craballoc are proved to meet it (the one on wgpu under C19)"
ITER = "parameters of type `impl IntoIterator` are taken as Vec, `impl AsRef<R>` as &R; T: Clone is assumed to return an equal value"
GENERAL = [HEAP, GLUE, LIMITS, RUN, ITER]
def alloc(p, *names, lemmas, deps=()):
    PROPS[p] = {"units": [("alloc", fns(*names, lemmas=lemmas))], "deps": list(deps), "level": "proof", "bounded": [], "bounded_only": False,
                "assumptions": GENERAL}
RANGES = [("ranges", free_ranges)]
UPDATES = [("ranges", lambda i: True)]
alloc("C11", *MAKERS, *COMMITS, *HANDLES, *DROPS, "defrag", lemmas=STEP + ("lemma_readd", "lemma_run_keeps", "lemma_run_apart", "two_values"), deps=RANGES)
alloc("C12", *MAKERS, *COMMITS, *HANDLES, *DROPS, "defrag", lemmas=STEP + BOUND + ("lemma_readd", "lemma_run_freed", "sharing"), deps=RANGES)
alloc("C13", *MAKERS, *COMMITS, *SETTERS, *RUNTIME, "synchronize", lemmas=UPD + ("lemma_commit_content", "lemma_commit_value", "lemma_commit_array", "lemma_commit_again", "lemma_born_content",
      "lemma_set", "lemma_set_item", "lemma_run_keeps", "lemma_run_value", "lemma_run_array", "lemma_synced_set", "lemma_synced_step", "two_values") + STEP, deps=UPDATES)
alloc("C14", *BUFFERS, *RUNTIME, *COMMITS, "maybe_expand_to_fit", "reserve_capacity", "increment_len", lemmas=("lemma_commit_handle", "lemma_handle_frame", "lemma_apply_upd", "lemma_run_handle"), deps=UPDATES)
alloc("C15", *HANDLES, *DROPS, *SETTERS, *READS, *IDS, "impl Hybrid<T> :: new", "impl HybridArray<T> :: new", "new_value", "new_array",
      lemmas=("lemma_shared", "lemma_dropped", "lemma_set", "lemma_set_item", "lemma_tally", "lemma_synced_set", "lemma_synced_step", "sharing") + STEP)
alloc("C16", "range_to_indices_and_len", "buffer_read", lemmas=())
alloc("C17", *MAKERS, *COMMITS, *SETTERS, *DROPS, *IDS, "has_queued_updates", lemmas=("lemma_commit_again", "lemma_set", "lemma_set_item", "lemma_run_queued") + STEP)
WGPU = "wgpu is foreign code and there is no GPU here: its documented behaviour is assumed (verus/gpu.tmpl: validity of requests, buffers of whole words, work done in the " \
       "order of submission, mapping answered once the work before it is known to be done), and so are bytemuck's casts and the channel of one message; " \
       "failing inputs are searched on a stand-in for wgpu on memory (wgpu-stub); device limits, loss and running out of memory are not considered"
alloc("C19", "CpuRuntime :: buffer_create", "CpuRuntime :: buffer_copy", "CpuRuntime :: buffer_write", "CpuRuntime :: buffer_read", lemmas=(),
      deps=UPDATES + [("alloc", fns("range_to_indices_and_len", lemmas=()))])
PROPS["C19"]["units"].insert(0, ("gpu", lambda i: True))
PROPS["C19"]["assumptions"] = [HEAP, LIMITS, WGPU]

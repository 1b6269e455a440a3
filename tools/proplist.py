NA = {}
FILES = ["src/tree/generic.rs", "src/tree/optimistic.rs", "src/tree.rs", "src/leaf24.rs", "src/nodeversion.rs"]
T2 = "the existing concurrent tests run a few thousand random OS-scheduled interleavings per build; they cannot choose the schedule, so an interleaving that needs two or three badly placed preemptions is practically never run"

prop("C01", "Concurrent gets and inserts are linearizable per key",
 "For every set of concurrently executed get and insert operations there is, for each key, one total order of the operations on that key that respects real time and in which every get returns the value of the latest preceding insert (or nothing if there is none) and every insert returns the value it replaced. A read made after all threads have finished returns the last value of that order.",
 ["schedules", "programs"], "all interleavings, within the preemption bound, of two or three threads running get / get_ref / insert on colliding keys over every listed starting tree; and one or two operations delayed at every point across long histories of other inserts",
 T2, FILES, [("optimistic read and version validation", G + ": get_concurrent_generic, get_ref_generic"), ("locked insert with re-validation", G + ": insert_concurrent_generic")],
 SCHED + ", per-key linearizability search on every execution", CN,
 observe=["return values of get, get_ref, get_with_guard, insert, insert_with_guard"])

prop("C02", "No concurrent insert is ever lost",
 "When several threads insert at the same time, every key that any of them inserted is present once they have finished, with the value of one of the inserts of that key, and no key that was present before disappears. Later inserts and reads on the resulting map behave as on a map built sequentially with the same contents.",
 ["schedules", "programs"], "all interleavings, within the preemption bound, of two or three writers, followed by further sequential inserts and a full read-back; and one or two operations delayed at every point across long histories of other inserts",
 T2 + "; a lost key shows only when two writers meet inside a window of a few instructions", FILES,
 [("re-validation after locking, slot choice and permutation publication", G + ": insert_concurrent_generic"), ("split under lock", G + ": handle_leaf_split_generic")],
 SCHED + ", final contents and aftermath compared with a map", CN)

prop("C03", "Readers never miss or misread a key while nodes split",
 "A key that is present throughout a lookup is found by it with its value, whatever leaf split, interior node split, root replacement or growth by a level happens during that lookup. A key that is absent throughout is reported absent.",
 ["schedules"], "all interleavings, within the preemption bound, of readers with writers that split a root leaf, a leaf under an interior node, a full interior node, an interior node below another and a three-level tree, in the main tree and inside a sub-layer; and one or two operations delayed at every point across long histories of other inserts",
 T2 + "; the windows are the few stores between linking a new sibling and publishing it in the parent", ["src/tree/generic.rs", "src/internode.rs", "src/tree/split.rs", "src/leaf24.rs", "src/ksearch.rs"],
 [("descent with version validation", G + ": reach_leaf_concurrent_generic"), ("sibling chase", G + ": advance_to_key_generic"), ("internode insertion and split", "src/internode.rs: insert_key_and_child, split_into"), ("split propagation", "src/tree/generic.rs and src/tree/split.rs")],
 SCHED + " over splitting scenarios", CN)

prop("C04", "Turning a key into a sub-layer is atomic for every observer",
 "When an insert meets a key that shares all of its next eight bytes, both the old and the new key are at every moment either found with their value or (the new one, before its insert returns) absent. Concurrent reads, updates and further inserts under the same prefix never observe a missing old key, a value of another key, or an unfinished layer.",
 ["schedules"], "all interleavings, within the preemption bound, of a layer-creating insert with reads, updates, same-key inserts, third inserts and held references, for one-level and chained layers",
 T2, ["src/tree/generic.rs", "src/leaf24.rs", "src/leaf_trait.rs", "src/suffix.rs"],
 [("conflict handling and layer installation", G + ": insert_concurrent_generic (layer creation)"), ("layer descent", G + ": get_concurrent_generic, maybe_parent_generic")],
 SCHED + " over layer-creating scenarios", CN)

prop("C05", "No memory error; references stay valid while their guard lives",
 "No operation, in any interleaving, reads or writes memory that has been freed or was never allocated, or frees anything twice. A reference or value obtained from the map remains the same readable value for as long as the guard (or the returned handle) that protects it lives, even when the key is updated, moved by a split, or pushed into a sub-layer meanwhile.",
 ["schedules", "programs"], "all interleavings, within the preemption bound, on a heap that never reuses memory and frees retired objects as early as the reclamation contract allows; and one or two operations delayed at every point across long histories of other inserts",
 T2 + "; and the ordinary allocator and lazy reclamation hide premature retirement", ["src/tree/generic.rs", "src/alloc24.rs", "src/leaf24.rs", "src/slot.rs", "src/suffix.rs"],
 [("retirement of values and suffix storage", "src/leaf24.rs: swap_value / assign_ksuf / clear_ksuf; src/tree/generic.rs"), ("guard-scoped references", G + ": get_ref_generic")],
 SCHED + " with a checking heap and an eager reclamation stand-in", CN)

prop("C06", "The map is free of data races",
 "Any two accesses to the same memory by different threads, at least one of them a non-atomic access and at least one a write, are ordered by synchronisation in every execution of the public operations.",
 ["schedules"], "all interleavings, within the preemption bound; the happens-before relation is computed from the orderings the code requests, not from what the processor happens to do",
 "the tests do not run under a race detector, and x86 hides missing orderings", ["src/tree/generic.rs", "src/leaf24.rs", "src/suffix.rs", "src/nodeversion.rs", "src/ordering.rs", "src/internode.rs"],
 [("publication orderings", "src/ordering.rs"), ("version lock", "src/nodeversion.rs"), ("suffix storage replacement", "src/leaf24.rs: assign_ksuf")],
 SCHED + ", vector-clock happens-before race detection on every execution", CN)

prop("C07", "Concurrent operations always finish: no deadlock, livelock or panic",
 "Under every fair schedule every get and insert on keys of legal length returns: threads never wait for each other in a cycle, never spin for a change nobody will make, and never panic or report failure.",
 ["schedules", "programs"], "all interleavings, within the preemption bound, with detection of states in which no thread can proceed and of threads that spin forever; and one or two operations delayed at every point across long histories of other inserts",
 T2 + "; a deadlock in a test shows as a hang without a cause", ["src/tree/generic.rs", "src/nodeversion.rs", "src/tree/split.rs"],
 [("lock order leaf to parent", G + ": handle_leaf_split_generic, propagate_split"), ("bounded retry loops", G), ("spinning on versions", "src/nodeversion.rs: stable, lock")],
 SCHED + " with deadlock, livelock and panic detection", CN)

prop("C08", "A suspended reader never holds up anybody",
 "If a thread is suspended at any point inside a lookup, all operations of the other threads still complete with correct results. When the reader is resumed afterwards its lookup completes with a correct result.",
 ["schedules", "fault_sequences"], "the reader is suspended at every atomic step of its operations, and, in interleavings where it was preempted before, wherever it has just written something; within the preemption bound, until all other threads have finished",
 "tests cannot stop a thread between two chosen instructions", ["src/tree/generic.rs", "src/nodeversion.rs"],
 [("lock-free read path", G + ": get_concurrent_generic, get_ref_generic, reach_leaf_concurrent_generic")],
 "stateless model checking: exhaustive suspension points of a reader times preemption-bounded schedules", CN)

prop("C09", "The reported length is exact, and sound while inserts run",
 "After any set of concurrent inserts has completed, the reported length equals the number of distinct keys present, and the map reports itself empty exactly when it contains none. While inserts run, len() counts every new key whose insert has returned and none whose insert has not begun, and is_empty() never denies a key whose insert has returned.",
 ["schedules", "programs"], "all interleavings, within the preemption bound, of inserts of equal and different keys with splits and layer creation, and of len and is_empty calls next to them",
 T2, ["src/tree/generic.rs", "src/tree.rs"], [("length counter", G + ": inc_count, len, is_empty"), ("insert versus update decision", G + ": insert_concurrent_generic")],
 SCHED + ", length compared with the read-back contents", CN)

prop("C10", "Every value is dropped exactly once and nothing leaks",
 "Under every interleaving, each value handed to the map is dropped exactly once: when it has been replaced and nobody can still see it, or at the latest when the map and all handles to it are gone. Dropping the map afterwards releases every allocation it made.",
 ["schedules", "programs"], "all interleavings, within the preemption bound, followed by dropping the map",
 T2 + "; and the tests do not count allocations", ["src/tree/generic.rs", "src/tree.rs", "src/alloc24.rs", "src/leaf24.rs", "src/suffix.rs"],
 [("tear-down", "src/tree.rs: Drop; src/alloc24.rs: teardown"), ("failed insert gives the value back", G + ": insert_concurrent_generic"), ("retirement", "src/leaf24.rs")],
 SCHED + ", drop counts per value and outstanding allocations on every execution", CN)

prop("C11", "Each displaced value is handed back to exactly one caller",
 "When threads insert the same key concurrently, the values returned by those inserts together with the value left in the map are exactly the initial value and all inserted values, each once. In particular exactly one insert of a previously absent key reports that it was absent.",
 ["schedules", "programs"], "all interleavings, within the preemption bound, of two or three threads inserting equal and different keys",
 T2, ["src/tree/generic.rs", "src/leaf24.rs"], [("update under lock", G + ": insert_concurrent_generic")],
 SCHED + ", multiset of returned values compared with inserted values", CN)

prop("C12", "Results are correct on weakly ordered processors",
 "The map's results are linearizable also when loads may return older values that the language's memory model still allows for the orderings the code requests.",
 ["schedules"], "all interleavings within the preemption bound combined with every choice of at most one (two on operations inside a leaf or layer, layer splits and two-thread programs; everywhere when thorough) loads returning an older value permitted by coherence and happens-before",
 "the tests run on x86, which never exhibits these behaviours", ["src/ordering.rs", "src/tree/generic.rs", "src/leaf24.rs", "src/nodeversion.rs"],
 [("memory orderings of the publication protocol", "src/ordering.rs"), ("fences in version validation", "src/nodeversion.rs: has_changed, stable")],
 "stateless model checking: preemption-bounded schedules times bounded stale reads under the C11 rules", CN)

# ---- sequential histories (crate seq) ----
SEQM = "explicit bounded-exhaustive exploration of operation histories on the real map: every case of every listed finite family is executed and compared with a sorted-map model"
SN = ("Every case of the listed families is executed on the real, unmodified crate (with its real dependencies); complete within the families, "
      "no claim about histories, keys or sizes outside them. A process that dies or hangs is attributed to the case it was running.")
TS = "the unit tests insert a few hand-picked key sets in one or two orders; a defect that depends on where a key falls relative to 24-slot leaves, 8-byte slices and suffix storage needs a particular combination"

prop("V01", "A node's lock admits one thread at a time and is always released",
 "However lock, lock_with_yield, try_lock and try_lock_for are mixed, at most one guard of a node exists at any time, no update made under the lock is lost, and the word reads as locked and being modified while the guard lives. try_lock fails only if another thread used the lock meanwhile, try_lock_for only once its deadline has passed. Dropping the guard - by unwinding too - releases the lock with exactly the marks that were set (deleted, nonroot) and never alters the node's kind.",
 ["schedules", "programs"], "all interleavings, within the preemption bound, of all pairs and triples of critical sections over every way of locking and every mark, and of two sections per thread",
 "the unit tests of the lock run it on one thread or on a handful of random schedules", ["src/nodeversion.rs"],
 [("lock acquisition", "src/nodeversion.rs: lock, lock_with_yield, try_lock, try_lock_for"), ("release", "src/nodeversion.rs: LockGuard::drop, mark_insert, mark_split, mark_deleted, mark_nonroot")],
 SCHED + ", ghost lock state, happens-before race detection on the protected data", CN)

prop("V02", "Validated reads notice every modification and invent none",
 "stable() returns only words taken while nobody was modifying the node; if has_changed() (or has_changed_or_locked()) is false afterwards, no complete modification happened in between, and if has_split() is false no split completed in between; a read that saw part of a modification is noticed by has_changed_or_locked() always and by has_changed() when all writers mark splits. If nobody touched the node, none reports a change; all this also with loads that return older values the memory model allows.",
 ["schedules", "programs"], "all interleavings, within the preemption bound, of one to three critical sections of every kind with one or two validated reads by every check, and of two writers with a reader; repeated with up to two stale loads",
 "a missed modification needs the writer to be preempted between two of its stores while the reader passes", ["src/nodeversion.rs"],
 [("snapshots", "src/nodeversion.rs: stable, stable_with_yield"), ("checks", "src/nodeversion.rs: has_changed, has_split, simple_has_split, has_changed_or_locked"), ("version increments", "src/nodeversion.rs: LockGuard::drop")],
 SCHED + " and of stale loads, ghost history of critical sections", CN)

prop("V03", "A new split sibling stays closed until its creator releases it",
 "A sibling made by new_for_split() can be published before it is complete: no thread gets a stable version of it or its lock before unlock_for_split(), and everything written to it before that call is visible to every thread that gets in. Releasing it leaves it unlocked, clean, non-root and of its creator's kind.",
 ["schedules"], "all interleavings, within the preemption bound, of a splitting thread with one or two threads that read, lock, try to lock or yield-lock the sibling; repeated with up to two stale loads",
 "the window between publication and release is a few instructions long", ["src/nodeversion.rs"],
 [("split-locked siblings", "src/nodeversion.rs: new_for_split, unlock_for_split, is_split_locked")],
 SCHED + " and of stale loads, happens-before race detection", CN)

prop("V04", "A frozen permutation changes only through its freeze guard",
 "However freezing, optimistic inserts and readers of a leaf's permutation interleave, there is an order of the calls that respects real time and explains all results by one word: while it is frozen permutation_try reports so, permutation_wait waits and no compare-and-swap succeeds; freezing returns the last published permutation, unfreezing publishes exactly the one given, and dropping the guard - by unwinding too - restores the snapshot. A compare-and-swap succeeds exactly if the word is the expected one and otherwise reports the current one, and what an inserter wrote before publishing a slot is visible to whoever sees the slot, with stale loads allowed too.",
 ["schedules", "programs"], "all interleavings, within the preemption bound, of all pairs and triples of calls, and pairs of two calls with one or two, over readers, fresh and stale optimistic inserts, locked updates and freeze sections that shrink, grow, roll back or unwind, on leaves of 0 to 23 keys",
 "the unit tests set the frozen word by hand on one thread; a lost publication needs an insert between the freezer's load and its store", ["src/leaf24.rs", "src/leaf24/freeze.rs", "src/leaf24/cas.rs", "src/permuter24.rs", "src/freeze24.rs"],
 [("freezing", "src/leaf24/freeze.rs: freeze_permutation, unfreeze_set_permutation, FreezeGuard24::drop"), ("readers", "src/leaf24/freeze.rs: permutation_try, permutation_wait"), ("publication", "src/leaf24/cas.rs: cas_permutation_raw; src/leaf24.rs: cas_slot_value")],
 SCHED + " and of stale loads, linearizability search over the permutation word, happens-before race detection", CN)

prop("V05", "The chain of leaves stays whole while siblings are linked",
 "While threads link new leaves after the same or neighbouring leaves, each holding that leaf's lock, every walk along the chain - forward, forward by unmasked raw pointers, or backward - terminates, visits no leaf twice and none that is not being linked, sees the contents of each, and passes every leaf that was already linked when it began. In the end the chain holds every leaf once, between the leaf it was split from and that leaf's old right neighbour, with matching backward pointers and no mark left.",
 ["schedules", "programs"], "all interleavings, within the preemption bound, of two or three threads that link leaves, walk in each direction, mark and unmark a next pointer or wait for a split, one or two calls each; repeated with a stale load",
 "the chain is half-linked only for a few stores, and the unit tests link on one thread", ["src/leaf24.rs", "src/link.rs"],
 [("linking", "src/leaf24.rs: link_sibling, lock_next, wait_for_split"), ("walking", "src/leaf24.rs: safe_next, next_raw, prev; src/link.rs")],
 SCHED + " and of stale loads, final shape of the chain", CN)

prop("M01", "A single-threaded map behaves like an ordered dictionary",
 "For every sequence of inserts and lookups by one thread, each insert returns the previous value of exactly that key (or nothing if it was absent), each lookup returns the most recently inserted value of exactly that key (or nothing), and no legal insert fails.",
 ["inputs", "histories"], "all insert sequences up to a length over adversarial alphabets from many starting maps, all positions of updates, and growth in many orders and key shapes",
 TS, ["src/tree/generic.rs", "src/leaf24.rs", "src/key.rs", "src/suffix.rs", "src/ksearch.rs", "src/internode.rs"],
 [("search in a leaf", G + ": search_for_insert_generic, get_concurrent_generic"), ("insert, update, split, layer creation", G + ": insert_concurrent_generic")],
 SEQM, SN, observe=["return values of every insert and lookup"])

prop("M02", "Different byte strings are different keys",
 "Two keys address the same entry exactly when they are the same byte string of 0 to 256 bytes: keys that are prefixes of one another, that differ only in trailing zero bytes, in length, or in one byte at any position never collide, and a key is always found under its own bytes.",
 ["inputs"], "all ordered pairs and many triples of a universe covering every length around slice boundaries, all pairs of lengths 0..=256, a one-byte difference at every position of every length, all lengths together in one map, all orders of small alphabets",
 "tests check a handful of key pairs; the identity rules combine slice, in-slice length, suffix and layer depth", ["src/key.rs", "src/leaf24.rs", "src/suffix.rs", "src/tree/generic.rs"],
 [("slices and zero padding", "src/key.rs: read_ikey, shift"), ("keylenx comparison and suffix equality", "src/leaf24.rs: ksuf_equals, keylenx"), ("conflict to layer", G + ": create_layer_concurrent_generic")],
 SEQM, SN, observe=["return values of every insert and lookup"])

prop("M03", "Splits keep every key reachable and add none",
 "Whatever the contents of a full leaf or internode and wherever the new key falls, after the insert that splits it (and any split this causes above) every key inserted so far is found with its value and every other key is absent; and this stays so as the map keeps growing.",
 ["inputs", "histories"], "a split in every gap of every leaf of maps of many sizes, groups of equal slices of every size at every place in a full leaf, growth in 8 orders and 13 key shapes, in the main tree and in sub-layers",
 TS, ["src/tree/generic.rs", "src/leaf24.rs", "src/internode.rs", "src/tree/split/propagation.rs", "src/tree/split/root_creation.rs", "src/tree/split.rs"],
 [("choice of the split point", "src/leaf24.rs: calculate_split_point"), ("moving entries", "src/leaf24.rs: split_into"), ("separators upward", "src/internode.rs: insert_key_and_child, split_into; src/tree/split/propagation.rs")],
 SEQM, SN, observe=["return values of every insert and lookup"])

prop("M04", "Length and emptiness are exact",
 "After every operation of a single-threaded history len() equals the number of distinct keys inserted so far, and is_empty() is true exactly when none has been inserted. Updates, failed lookups, splits and layer creation do not change it.",
 ["histories"], "checked after every operation of all sequences of the listed families, on every map type",
 TS, ["src/tree/generic.rs", "src/tree/index.rs"], [("counter", G + ": len, is_empty and the increments in insert_concurrent_generic")],
 SEQM, SN, observe=["len()", "is_empty()"])

prop("M05", "Keys up to 256 bytes work, longer keys are refused without effect",
 "Every key of at most 256 bytes can be stored and found. A longer key is refused by every entry point (by the documented panic, or an error or absence) and never stored, truncated or confused with a shorter key; the refused call leaves the map unchanged and usable.",
 ["inputs"], "62 lengths above the limit including those that are legal modulo 2^8 and 2^16, several fills, on maps that contain every legal length of the same fill, through every entry point; all length pairs below the limit",
 "tests try one or two over-long keys on an empty map", ["src/key.rs", "src/tree/generic.rs"], [("length check", "src/key.rs: Key::new")],
 SEQM, SN, observe=["outcome of calls with over-long keys", "map contents afterwards"])

prop("M06", "Values and memory are owned exactly once in every history",
 "In every single-threaded history each value is dropped exactly once: not before the map and all handles returned for it are gone, and not later. References obtained under a guard stay readable for the life of the guard, handles outlive the map, and dropping the map returns every allocation it made.",
 ["histories"], "all insert sequences of the listed families with handles to none, the displaced, or all values kept, with and without one long-lived guard; allocation balance for seven map and value types",
 "tests count drops for a few fixed scenarios and do not measure allocations", ["src/slot.rs", "src/value.rs", "src/leaf24.rs", "src/alloc24.rs", "src/tree.rs", "src/suffix.rs"],
 [("slot ownership", "src/slot.rs, src/value.rs"), ("retirement", "src/leaf24.rs: swap_value, assign_ksuf"), ("tear-down", "src/alloc24.rs: teardown_tree")],
 SEQM + ", with drop-tracked values and a counting allocator", SN, observe=["drops of values", "allocator balance"])

prop("M07", "All map types, entry points and value types agree",
 "MassTree, MassTree24, MassTree24Inline and MassTreeIndex, built by new() or default(), give the same results for the same history through get, get_with_guard, get_ref, insert and insert_with_guard, for every value type and bit pattern (including zero-sized, 128-bit and all-ones values), and a stored value is read back unchanged.",
 ["inputs", "histories"], "the same histories on six constructions and ten value types, every read through every entry point, all ordered pairs of 16 sentinel-like bit patterns stored over one another",
 "tests exercise most variants with u64 values that look like ordinary numbers", ["src/tree.rs", "src/tree/index.rs", "src/slot.rs", "src/value.rs", "src/leaf24.rs"],
 [("value slots", "src/slot.rs, src/value.rs"), ("index wrapper", "src/tree/index.rs")],
 SEQM, SN, observe=["return values of every entry point"])

prop("M08", "The tracing feature changes nothing but what is reported",
 "With the tracing feature compiled in, whether a subscriber looks at every event and field or nobody listens, every single-threaded history gives the results of an ordered dictionary: no return value, length, panic, refusal or drop of a value differs. The debug counters then count each completed insert once, report none of the anomalies that need another thread (wrong leaf, missed or endless sibling chase, waiting for a parent), and start again from zero when reset.",
 ["configurations", "histories"], "the sequence, update, over-long, split-group, growth, gap, ownership and length families on two builds with the feature: debug assertions with a subscriber that formats everything, and none with nobody listening",
 "the tests are only type-checked with the feature, never run", ["src/tree/generic.rs", "src/tree/optimistic.rs", "src/tree/split/propagation.rs", "src/tree/split/root_creation.rs", "src/leaf24.rs", "src/nodeversion.rs"],
 [("instrumented operations", "src/tree/generic.rs, src/tree/split, src/leaf24.rs"), ("debug counters", "src/tree/optimistic.rs")],
 SEQM, SN, observe=["return values of every insert and lookup", "debug counters after each history"])

SEQP = "explicit-state exploration of the real component: breadth-first over reachable states, or every operation sequence and every argument within bounds, each compared with a reference model"
PN = ("Every state, sequence or argument tuple of the listed finite spaces is executed on the real component, built with and without debug assertions, "
      "and compared with a small reference model in the harness; complete within the spaces reported per part in the evidence, no claim outside them. Trusts the reference models and rustc.")
PT = "unit tests try a handful of values; a wrong shift, mask or bound shows only for particular sizes, positions and bit patterns"
prop("P01", "Slot permutations behave as arrays under every operation",
 "Every permutation type (widths 1 to 15 and 24) always denotes a permutation of all its slots with a size, and each of its operations (insert, remove, exchange, rotate, size changes, allocation of a free slot, search and iteration) changes it exactly as the same operation on an array would, whatever state it is in. Storing, loading and comparing-and-swapping it atomically gives back the same permutation, and two different permutations are never taken for equal.",
 ["histories", "inputs"], "all reachable states for widths 1 to 8 (9 when thorough), all encodings for the smallest; for widths 9 to 15 and 24 all sizes, six orders, and all pairs of operations with all arguments",
 PT, ["src/permuter.rs", "src/permuter24.rs", "src/leaf_trait.rs"], [("4-bit permutations", "src/permuter.rs"), ("5-bit permutations of 24 slots", "src/permuter24.rs")],
 SEQP, PN, state=["slot order", "size"], observe=["every accessor after every operation"])
prop("P02", "A frozen permutation cannot be changed and is always thawed",
 "Freezing a leaf's permutation makes every compare-and-swap of it fail and every reader that insists on an unfrozen one wait or report it, while the frozen contents can still be read back exactly. Publishing a new permutation, dropping the guard, or a panic of the writer leaves the leaf unfrozen with the intended contents, and no ordinary permutation ever looks frozen.",
 ["histories", "inputs"], "every permutation of six orders and all sizes frozen and thawed, single-bit changes, all sequences of 4 or 5 actions on a leaf (freeze, drop, publish, forget, store, compare-and-swap), panics in between",
 PT, ["src/freeze24.rs", "src/leaf24/freeze.rs", "src/leaf24/cas.rs", "src/permuter.rs"], [("encoding", "src/freeze24.rs"), ("guard", "src/leaf24/freeze.rs"), ("compare-and-swap", "src/leaf24/cas.rs")],
 SEQP, PN, state=["permutation word"], observe=["permutation_try, cas_permutation, is_permutation_frozen"])
prop("P03", "Suffix storage returns exactly what was stored",
 "After any sequence of assigning, overwriting, clearing, compacting and cloning, a suffix bag returns for every slot exactly the bytes last assigned to it or nothing, and compares them with other bytes as byte strings. Growing and compacting never lose, truncate or mix suffixes, and an over-long suffix is refused without changing anything.",
 ["histories", "inputs"], "all sequences of 4 or 5 actions over two or three slots and colliding text lengths from several capacities; 24 slots with 249 base lengths in four orders; bags that take 140,000 bytes without compaction; lengths around 65,535",
 PT, ["src/suffix.rs"], [("suffix bag", "src/suffix.rs")],
 SEQP, PN, state=["slot table", "byte pool"], observe=["get, suffix_equals, suffix_compare, count, used"])
prop("P04", "Interior nodes keep keys and children in step through edits and splits",
 "Inserting a key with its child, shifting, assigning and splitting an interior node of any width at any position keeps the keys sorted, each child between the right keys, sizes and heights correct, and every child above the leaf level pointing to the node that holds it. Trees grown by any order of separators route every key to the child inserted for it.",
 ["histories", "inputs"], "ten widths from 1 to 15: every size, position and height for edits and splits; all orders of 9 keys (10 when thorough) for widths 2 to 5; orders of up to 2,000 keys for width 15",
 PT, ["src/internode.rs", "src/leaf_trait.rs"], [("edits and split_into", "src/internode.rs")],
 SEQP, PN, state=["keys", "children", "parents"], observe=["keys, children and routing after every step"])
prop("P05", "Every search routine gives the answer counting gives",
 "The binary, linear and vectorised searches over slices, leaf slots, permuted slots and interior nodes agree with plain counting for every length, size argument, position and 64-bit value, treat keys as unsigned, and never read outside the memory they are given.",
 ["inputs"], "all arrays of up to 5 of six edge values and up to 9 of three; lengths to 40 with targets and near misses at every position; every single-bit difference at every leaf slot; every size, order and gap for permuted and interior searches; arrays ending at an unreadable page",
 "tests use small ascending numbers; sign errors, lane errors and over-reads need particular values, alignments and lengths, and found here two defects that tests had not",
 ["src/ksearch.rs", "src/ksearch/simd.rs", "src/ksearch/simd_search.rs", "src/internode.rs", "src/leaf24.rs"], [("searches", "src/ksearch.rs"), ("vectorised searches", "src/ksearch/simd.rs")],
 SEQP, PN, observe=["results of every routine"])
prop("P06", "Keys read slice by slice preserve the order of byte strings",
 "For every key of up to 256 bytes and every sequence of shifts forward and back, the slice, length, suffix and remaining bytes are those of the byte string at that offset, zero-padded at its end. Comparing slices and length classes orders keys exactly as their bytes do, longer keys are refused, and a key made from a slice value reads back as that value.",
 ["inputs", "histories"], "every length 0 to 256 with five contents, every pair of shifts; all pairs of about 800 keys of up to 18 bytes; 16,384 slice values",
 PT, ["src/key.rs"], [("key cursor", "src/key.rs")],
 SEQP, PN, observe=["ikey, suffix, compare and lengths after every shift"])
prop("P07", "A slot or raw value pointer owns its value exactly once",
 "After any sequence of storing, replacing, taking, cloning, converting to raw pointers and back, and cleaning up, each value is owned exactly as often as slots, handles and raw pointers refer to it, and is released exactly when the last of them goes. A slot is always exactly one of empty, value or layer, layer pointers are neither followed nor released, and marking a pointer changes only its mark.",
 ["histories", "inputs"], "both slot kinds: all sequences of 6 (7 when thorough) of 30 operations over two slots, two handles and two raw pointers, owners counted after each; every variant through every view; marks of addresses of every two bits",
 "tests check single conversions; a leaked or doubled count needs a particular sequence and a count of what is alive", ["src/slot.rs", "src/value.rs", "src/link.rs"],
 [("slot kinds", "src/slot.rs"), ("slot values", "src/value.rs"), ("marked pointers", "src/link.rs")],
 SEQP, PN, state=["owners of each value"], observe=["strong counts, live values and live heap blocks"])
prop("P08", "Splitting a leaf moves every entry whole and keeps equal slices together",
 "Splitting a leaf of any size, slot order and mix of inline, suffix and layer entries at any position leaves exactly the entries before that position in the left leaf and exactly the others, in order and with their values, lengths and suffixes, in the right one, which starts with the separator and stays locked until released. The chosen split point never separates equal slices and exists for every full leaf, linking keeps one chain in both directions, suffixes that readers may be reading stay unchanged, and dropping a leaf releases each value once and no layer.",
 ["histories", "inputs"], "all sizes, positions, six slot orders and eight mixes, both slot kinds; all groupings of 1 to 17 and of 24 keys by slice with every insertion; all sequences of 4 suffix operations; all orders of linking 8 leaves; all compare-and-swaps of slots",
 "tests split a few leaves filled in order; lost suffixes, double ownership and separated groups need particular orders, mixes and positions", ["src/leaf24.rs", "src/leaf24/cas.rs", "src/leaf24/freeze.rs", "src/leaf_trait.rs"],
 [("split and link", "src/leaf24.rs"), ("suffixes", "src/leaf24.rs")],
 SEQP, PN, state=["both leaves", "sibling chain"], observe=["every slot of both leaves, live values and heap blocks"])
prop("P09", "The node allocator releases every node exactly once",
 "Every leaf and interior node given to the allocator stays valid and unchanged until it is retired or the allocator is torn down or dropped, stays readable for guards that were pinned when it was retired, and is released exactly once whatever the order of those events. The counts of leaves and interior nodes are always those of the nodes it owns.",
 ["histories"], "all sequences of 4 and 5 of 17 operations (5 and 6 when thorough): allocation and tracking of both node kinds through both traits, retirement of the first, a middle or the last, unpinning, teardown; dropping in both orders",
 "tests allocate and drop a few nodes; leaks and double releases need particular orders and a heap that checks", ["src/alloc24.rs", "src/alloc_trait.rs"],
 [("allocator", "src/alloc24.rs")],
 SEQP, PN, state=["tracked nodes"], observe=["counts, node contents, live values and heap blocks"])
prop("P10", "The single-threaded node version agrees with the shared one",
 "For every sequence of lock, mark, unlock and root-flag operations by one thread, both kinds of node version show the same flags and answer has_changed and has_split alike for every earlier snapshot. A completed locked section is always reported as a change and one that marked a split or deletion as a split, without a section or flag change neither is reported, and no split is reported for the inserts of one insert counter period. The kind never changes, a deletion stays, a split clears the root flag, and while a guard lives the shared version reads as locked and modified, whatever the counters were.",
 ["histories", "inputs"], "all sequences of 5 (7 when thorough) of 9 operations from new versions and of 4 (6) after nine histories that bring the counters to their limits, with every earlier snapshot asked; all sequences of 2 (3) from 19968 words with every insert counter, boundary split counters and all flags, in four ways of locking",
 "the unit tests try single marks from a new version; carries between the counters and flags need particular histories", ["src/nodeversion.rs"],
 [("shared version", "src/nodeversion.rs: NodeVersion, LockGuard"), ("single-threaded version", "src/nodeversion.rs: SingleThreadedNodeVersion, SingleThreadedLockGuard")],
 SEQP, PN, state=["version word", "history of sections"], observe=["flags, has_changed, has_split, simple_has_split, has_changed_or_locked for every snapshot"])

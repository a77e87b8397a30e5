#!/usr/bin/env python3
# Regenerates properties.jsonl (kept in one readable place).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","A layer's triples are its parent's plus additions minus removals",
"The triples of a committed layer are exactly its parent's triples, minus those its commit removed, plus those it added; a change that repeats, that is already in effect, or that adds and removes the same triple in one commit has no effect. Every way of asking (full iteration; by subject, subject and predicate, predicate, or object; existence by ids or by strings; single-triple lookup; total triple count) agrees with that set at every depth of history, yields each triple exactly once, and yields nothing for ids the layer does not know. This holds for any names, typed values and ids, in the asynchronous and in the blocking API.",
["inputs","histories","configurations"],"all commit histories (trees of layers, any triples, any add/remove mix by string or id), all queries, all storage backends",
"The tests query a handful of 1-3 layer stacks with under ten triples each; the iterator merge, seek and index code must be right for every combination of depth, re-addition, removal and id gap.",
["src/layer/internal/mod.rs","src/layer/internal/subject_iterator.rs","src/layer/internal/predicate_iterator.rs","src/layer/internal/object_iterator.rs","src/layer/simple_builder.rs","src/layer/builder.rs","src/layer/internal/child.rs","src/layer/internal/base.rs","src/store/mod.rs","src/store/sync.rs"],
[("merge of per-layer positive and negative iterators","src/layer/internal/*_iterator.rs"),("no-op elimination and dictionary compaction on commit","src/layer/simple_builder.rs commit"),("index construction (o_ps, predicate wavelet tree)","src/layer/builder.rs build_indexes")],
["Layer trait queries on every committed layer"])

p("C02","Names and typed values map to stable ids, one to one",
"Within a layer every known node, predicate and typed value has exactly one id and looking that id up returns exactly the original string or value with its datatype; a node and a value with equal text never share an id; unknown names and ids are reported as unknown. Every id a layer knows keeps its meaning in all descendants, and rolling layers up or reopening the store changes no id.",
["inputs","histories","configurations"],"all strings (any unicode, empty, long, shared prefixes), all datatypes, any number of entries per layer, all depths, all backends, before and after rollup and reopen",
"Tests use a few short ASCII names in one or two layers; dictionary blocks, id maps and their remapping in rollups behave differently by entry count, order of ids and type boundaries.",
["src/layer/id_map.rs","src/layer/internal/mod.rs","src/layer/builder.rs","src/layer/simple_builder.rs","src/storage/delta.rs","src/layer/layer.rs"],
[("per-layer dictionaries with parent offset","src/layer/internal/mod.rs"),("id maps of rolled up layers","src/layer/id_map.rs, src/storage/delta.rs")],
["id and string lookups of the Layer trait"])

p("C03","A committed layer never changes",
"Once a layer is committed, its identity, contents, ids, recorded changes, and parent are the same on every later observation, through handles obtained before or after. No later operation changes them: commits on top of it, squashes, rollups, merges, exports, imports of packs that contain it, label updates and deletes, cache eviction, or closing and reopening the store.",
["histories","configurations"],"all interleavings of store operations after the commit, all backends",
"Each test performs one operation and looks at its own result; none watches all previously created layers while many different operations run.",
["src/storage/layer.rs","src/storage/cache.rs","src/storage/archive.rs","src/storage/memory.rs","src/storage/directory.rs","src/storage/pack.rs"],
[("fresh random names for every new layer","src/storage/layer.rs create_directory"),("immutable mapped layer data shared by Arc","src/storage/cache.rs")],
["fingerprints of all layers after every operation"])

p("C04","Recorded changes of a layer are exactly its net changes",
"For every layer, the reported additions are exactly the triples present in it but not in its parent, and the reported removals exactly those present in its parent but not in it, under every access pattern (all, by subject, subject and predicate, predicate, object, existence, counts). This holds whether or not the layer or its ancestors were rolled up, in this or an earlier session, and whether it is loaded or read straight from storage; summed over a range of history, additions and removals give exactly the net difference between its ends.",
["inputs","histories","configurations"],"all layers of all histories, before and after any rollups, loaded and unloaded, all backends",
"Tests check deltas of single hand-written child layers, once per function; the rollup redirection and the per-backend file readers are exercised on trivial data only.",
["src/storage/layer.rs","src/storage/cache.rs","src/store/mod.rs","src/layer/internal/mod.rs","src/layer/internal/child.rs"],
[("delta queries read the original layer's files, bypassing the rollup","src/storage/layer.rs, src/storage/cache.rs"),("change-stack iterator","src/layer/internal/subject_iterator.rs InternalTripleStackIterator")],
["triple_additions*/triple_removals* and counts on store layers and on the storage interface"])

p("C05","Rolling up never changes what can be observed",
"After any sequence of full, partial or imprecise rollups on any layers of a history, every layer still has the same name, parent, ancestry, contents, ids, counts and recorded changes as before, in the same session and after reopening. New layers built on top of rolled up layers are correct, and rolling up an already rolled up layer, or up to any of its ancestors, succeeds.",
["histories","inputs","configurations"],"all histories, all sequences of rollup, rollup_upto and imprecise_rollup_upto targets, with and without the layers in cache, all backends",
"Tests roll up one fixed two- to five-layer stack once; nested rollups, partial rollups over rollups, id maps composed several times and cached originals are not combined.",
["src/storage/delta.rs","src/layer/internal/rollup.rs","src/storage/layer.rs","src/layer/id_map.rs","src/storage/cache.rs","src/storage/archive.rs"],
[("rollup pointer file next to the original layer","src/storage/layer.rs register_rollup, get_layer_with_cache"),("merged dictionaries with permutation id maps","src/storage/delta.rs, src/layer/id_map.rs")],
["all Layer and StoreLayer queries before and after rollups"])

p("C06","Squashing keeps exactly the contents",
"Squashing a layer yields a new parentless layer with exactly the same triples, and squashing up to an ancestor yields a layer directly on top of that ancestor with exactly the same triples and with the exact net difference as its recorded changes. The original layers are untouched.",
["histories","inputs","configurations"],"all histories including rolled up ones, all ancestors as boundary, all backends",
"Tests squash fixed stacks of a few layers; gaps left by dictionary entries that are no longer used, re-additions and rollups in the stack are not combined.",
["src/storage/layer.rs","src/store/mod.rs","src/layer/builder.rs"],
[("existence bitmaps and id remapping during squash","src/storage/layer.rs squash, squash_upto")],
["contents, parent and changes of the squashed layer"])

p("C07","Merging base layers yields exactly the union",
"Merging any number of parentless layers yields a new parentless layer whose triples are exactly the union of theirs, compared by names and typed values, with one id per distinct node, predicate and value, and leaves the inputs unchanged and no files behind in the temporary directory.",
["inputs","configurations"],"any number and any overlap of inputs, all datatypes, empty inputs, inputs with nodes and values of equal text, all backends",
"One test family merges a few tiny layers; overlapping dictionaries of different datatypes and sizes beyond one dictionary block are not sampled.",
["src/layer/internal/base_merge.rs","src/storage/layer.rs","src/storage/copy.rs"],
[("dictionary merge with remapping and heap-sorted triple stream","src/layer/internal/base_merge.rs")],
["contents and ids of the merged layer, temporary directory"])

p("C08","Export and import carry layers over unchanged",
"Importing requested layers from a pack makes every requested layer that is in the pack available under its original name with contents, ids, parent and recorded changes identical to the exporting store's; it creates no others, ignores requested layers that are not in the pack, and may be repeated, also for layers already present. The parent listing of a pack names exactly its layers with their parents. A truncated or damaged pack is answered with an error or imports correctly, never harms layers that already existed, and does not prevent a later correct import.",
["histories","inputs","configurations","fault_sequences"],"all histories (rolled up ones too), all subsets of layers, all pairs of storage backends, every truncation point or damaged byte of a pack",
"Tests export and import one two-layer stack between two memory or directory stores.",
["src/storage/pack.rs","src/store/mod.rs","src/storage/archive.rs","src/storage/directory.rs","src/storage/memory.rs"],
[("tar.gz pack of layer files without rollups","src/storage/pack.rs")],
["layers of the importing store"])

p("C09","Committed data survives reopening, in every backend alike",
"Every layer whose commit was acknowledged and every label update that was acknowledged reads back identically after the store is closed and reopened, by this or another process, and the same operations give the same observable results in the memory, directory, archive and cached-archive stores. Listing a store's layers returns exactly the layers written to it.",
["histories","configurations","inputs"],"all histories, any reopen points, all backends and cache sizes",
"Tests reopen a store only in a few places with one or two layers and rarely run the same scenario on more than one backend.",
["src/storage/archive.rs","src/storage/directory.rs","src/storage/memory.rs","src/storage/layer.rs","src/storage/consts.rs","src/store/mod.rs"],
[("archive header with per-file offsets","src/storage/archive.rs ArchiveHeader"),("prefix directory layout","src/storage/archive.rs, src/storage/directory.rs")],
["full store observation before closing and after reopening"])

p("C10","Label updates are atomic compare-and-set steps",
"All operations on database labels by any number of concurrent tasks, store handles and processes sharing one store behave as if executed one at a time in some order consistent with real time: create succeeds once, a compare-and-set update succeeds only if the label is still exactly as expected and then raises the version by one, reads return the latest value, and listing shows complete entries for labels that exist throughout. No operation on existing labels fails or reports damage merely because others run at the same time.",
["schedules","histories","configurations"],"all schedules of concurrent label and head operations, in one process or several, for every label store",
"Tests call label functions sequentially; two tests at most use stale label objects.",
["src/storage/directory.rs","src/storage/locking.rs","src/storage/memory.rs","src/storage/label.rs","src/store/mod.rs"],
[("advisory file locks around label files","src/storage/locking.rs"),("version number compared on update","src/storage/label.rs")],
["call and return of each label operation in every client"])

p("C11","A database head only moves forward unless forced",
"Setting the head of a database succeeds exactly when the database has no head yet or its current head is the given layer or an ancestor of it, and otherwise reports failure and changes nothing; with concurrent committers none of the acknowledged updates is ever lost. A forced update succeeds regardless of ancestry, a forced update with an expected version succeeds only if the version still matches, and after a deletion every operation on that database reports that it does not exist.",
["histories","schedules","configurations"],"all layer trees, all current and new heads, all concurrent writers, all backends, rolled up layers included",
"Tests try one linear advance and one unrelated layer; ancestry through rollups and races between check and update are not covered.",
["src/store/mod.rs","src/storage/layer.rs","src/storage/label.rs"],
[("ancestor walk before compare-and-set","src/store/mod.rs NamedGraph::set_head")],
["results of head updates and the resulting head and version"])

p("C12","A crash leaves every database at its old or its new state",
"If the process is killed, or power is lost, at any point during any operation, then after reopening every label is readable and is exactly as before or exactly as after the interrupted update, every update acknowledged before the crash is in effect, and every layer acknowledged before the crash loads with identical contents. The store works normally afterwards, including repeating the interrupted operation. The same holds when an operation is abandoned midway by dropping its future.",
["crash_points","histories","configurations"],"every prefix of the file system operations of every operation (commit, label create, update, clear, delete, rollup, squash, import), with unsynchronised data lost or kept, for the directory and archive stores",
"No test crashes; the write paths are only ever run to completion.",
["src/storage/directory.rs","src/storage/archive.rs","src/storage/locking.rs","src/storage/layer.rs","src/store/mod.rs"],
[("layer data written and synchronised before its name is published in a label","src/store/mod.rs, src/storage/archive.rs"),("synchronisation of files and directories on commit","src/storage/archive.rs store_layer_file, src/storage/directory.rs finalize")],
["file system call log of real runs; stores reopened on every reconstructed crash image"])

p("C13","Failed input or output is reported and harms nothing",
"When any file system call fails or is cut short (no space, input/output error, denied permission, interrupted or short read or write), the operation it belongs to reports an error or still completes correctly: it never reports success with wrong or missing data, and never takes the process down. Everything acknowledged earlier stays intact and readable, and once the fault is gone the same store instance works again without being reopened.",
["fault_sequences","histories","configurations"],"every file system call made by every operation, with each kind of error, in the directory and archive stores",
"No test injects a failure; error paths are never run.",
["src/storage/archive.rs","src/storage/directory.rs","src/storage/cache.rs","src/storage/layer.rs","src/store/mod.rs","src/storage/locking.rs"],
[("io::Result propagation","everywhere"),("cache of in-flight archive loads","src/storage/archive.rs LruArchiveBackend")],
["results of operations under interposed failing system calls"])

p("C14","Concurrent use of one store behaves like separate use",
"Any number of threads may query, commit, roll up, squash, export, import and drop layers on one store at the same time: every query sees exactly its layer's committed contents, no operation fails, hangs or corrupts another because of concurrency, and no committed layer is lost. At rest the store is as if the operations had run one after another.",
["schedules","histories","configurations"],"all schedules of concurrent operations on one shared store, all backends, with cache eviction and injected delays",
"The tests are single threaded except for a small cache test.",
["src/storage/cache.rs","src/storage/memory.rs","src/storage/archive.rs","src/storage/layer.rs","src/store/mod.rs"],
[("weak layer cache with locks","src/storage/cache.rs LockingHashMapLayerCache"),("construction file hand-over in the archive store","src/storage/archive.rs ArchiveLayerStore")],
["observations by all threads, compared with the reference model"])

p("C15","A layer builder commits exactly once and never half",
"A layer builder may be shared between threads: every change accepted before the commit is in the committed layer, exactly one of any number of commits succeeds, and every later change or commit is refused with an error. A builder that is never committed leaves no layer and no visible effect, and a builder and its parent do not influence each other.",
["schedules","histories","inputs"],"all schedules of concurrent adders and committers on one builder",
"Tests commit a builder twice in sequence at most.",
["src/store/mod.rs","src/store/sync.rs","src/layer/simple_builder.rs"],
[("builder behind a lock, taken on commit","src/store/mod.rs StoreLayerBuilder")],
["results of concurrent builder calls and the committed contents"])

p("C16","Cherry-picking and diffing reproduce the intended contents",
"Applying the changes of one layer to a builder on another layer commits the target's contents plus that layer's additions minus its removals, compared by names and values. Applying a difference to another layer commits exactly that other layer's contents. Both hold for layers with or without parents, unrelated layers, rolled up layers and layers of the same or a different history.",
["inputs","histories","configurations"],"all pairs of layers, related or not, all backends",
"Each is tested on one pair of tiny layers.",
["src/store/mod.rs","src/store/sync.rs"],
[("id to value translation of changes","src/store/mod.rs apply_delta, apply_diff")],
["contents of the committed layer"])

p("C17","The archive cache is transparent and stays within its limit",
"A cached archive store returns exactly the same bytes as the uncached one for every layer, part of a layer and starting offset, whatever was loaded, evicted, stored or re-pointed before and however many readers ask at once; failed loads are reported and not remembered. The memory it retains for cached layers does not exceed the configured limit.",
["histories","schedules","configurations","fault_sequences"],"all sequences and interleavings of reads and writes, all limits including ones smaller than a single layer",
"One test warms the cache with one layer; eviction, limits and concurrent resolution are not tested.",
["src/storage/archive.rs"],
[("LRU of whole archives with resolving entries","src/storage/archive.rs LruArchiveBackend")],
["bytes and errors returned by the backend, memory retained"])

p("C18","History queries report the true ancestry",
"For every layer, its parent, its stack of ancestor names from the base up to itself, the part of that stack above a given ancestor, and whether one layer descends from another are exactly as the layers were created. This is independent of rollups, caching and reopening, and asking about unknown layers gives a proper negative answer or an error, never a wrong one.",
["histories","configurations"],"all layer trees, all pairs of layers, all backends, before and after rollups",
"Tests ask about linear stacks of two or three layers without rollups.",
["src/storage/layer.rs","src/store/mod.rs","src/storage/cache.rs","src/storage/archive.rs"],
[("parent file walk","src/storage/layer.rs layer_is_ancestor_of, retrieve_layer_stack_names")],
["ancestry calls on all pairs of layers"])

p("C19","Stores and packs written by earlier builds stay readable",
"Directory stores, archive stores, label files and packs written by the released version of this library are read by the current build with identical names, contents, ids, changes, ancestry, rollups and labels, and can be extended.",
["configurations","histories"],"a corpus of stores and packs of every kind (bases, children, rollups, partial rollups, squashes, merges, imports, all datatypes, labels) written by the pinned version",
"Tests only read what the same build just wrote, so a change to writer and reader together goes unnoticed.",
["src/storage/archive.rs","src/storage/consts.rs","src/storage/directory.rs","src/storage/layer.rs","src/storage/pack.rs","src/layer/builder.rs"],
[("file name and layout constants","src/storage/consts.rs"),("archive header encoding","src/storage/archive.rs")],
["observation of the committed corpus by the current build"])

p("C20","No undefined behaviour and no data races",
"No use of the public interface, from any number of threads, makes the library read memory outside its allocations, use freed or uninitialised memory, violate aliasing, overflow arithmetic, or race on unsynchronised memory.",
["inputs","schedules","histories"],"all workloads of the other properties, single and multi threaded",
"Ordinary test runs do not observe such errors unless they happen to crash.",
["src/storage/archive.rs","src/storage/cache.rs","src/logging/logging.rs","src/storage/memory.rs","src/layer/internal/mod.rs"],
[("uninitialised buffer filled by reads","src/storage/archive.rs"),("static unsynchronised cell use","src/storage/cache.rs, src/logging/logging.rs")],
["AddressSanitizer, ThreadSanitizer, Miri and overflow-checked builds running the workloads"])

p("C21","Layers written and read part by part obey the storage rules",
"The public file builders and readers under a layer obey their contracts: dictionaries and triples written to a layer's files, one by one, in bulk or as a stream, in any split, are read back with exactly the ids they were given by their order; the builder of a child stores exactly the additions the parent lacks and the removals it has. The change and triple iterators by subject, predicate and object yield their layer's or stack's triples once, in their documented order; seeking to a place, peeking ahead, cloning and continuing yields exactly the rest from there on. Copying a layer's parts, or merging base layers' files directly, reproduces the same content.",
["inputs","histories","configurations"],"all contents, orders, splits, positions sought and mixes of next, peek, seek and clone, over layers in memory, directory and archive stores, rolled up or not",
"Tests write one or two tiny layers by hand and seek a few places on them; index construction, gaps in subjects and merged stacks of iterators depend on the data.",
["src/layer/builder.rs","src/layer/internal/base.rs","src/layer/internal/child.rs","src/layer/internal/subject_iterator.rs","src/layer/internal/predicate_iterator.rs","src/layer/internal/object_iterator.rs","src/layer/internal/rollup.rs","src/layer/internal/base_merge.rs","src/storage/file.rs"],
[("adjacency list and object index builders","src/layer/builder.rs"),("iterators that peek and seek over a stack of changes","src/layer/internal/subject_iterator.rs, predicate_iterator.rs, object_iterator.rs")],
["public builders, iterators and file structures of layers"])

p("C22","Using a store does not wear it out",
"Once its operations have ended, whether they succeeded, were refused, failed or were abandoned, and the layers they gave are dropped, a store holds no open file, running task or lock, and operations that add nothing (loading, querying, exporting, importing what is there, creating and deleting labels, asking for the unknown) leave memory, threads and the store's directory as they found them, however often they are repeated. The contents of a layer that was made or loaded leave the memory when nobody holds it, except for what a memory store stores and what an archive cache may keep within its limit, and no temporary files stay behind.",
["histories","fault_sequences","schedules","configurations"],"all repeated sequences of operations, in a row, at once, abandoned midway, with failing calls, through both interfaces, on all backends",
"Tests end after a few operations; what an operation leaves behind shows only when it is repeated, and no test looks at descriptors, memory or leftover files.",
["src/storage/cache.rs","src/storage/archive.rs","src/storage/locking.rs","src/storage/directory.rs","src/storage/pack.rs","src/storage/layer.rs","src/store/mod.rs","src/store/sync.rs"],
[("weak layer cache","src/storage/cache.rs"),("parts of archives under construction, archive cache","src/storage/archive.rs"),("locked files","src/storage/locking.rs")],
["open descriptors, threads, tasks and heap bytes of the process at rest, and the store's directory"])

with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+"\n")
print(len(P))

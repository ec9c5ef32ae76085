import json,os
D=os.path.dirname(os.path.abspath(__file__))
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
IDX="index/annoyindex.go"; IO="index/annoyindex_io.go"; SE="index/annoyindex_search.go"
prop("B01","A concurrent Build makes exactly the requested, complete trees",
"Build with any number of workers, however they interleave and however often node memory is reallocated meanwhile, makes exactly the requested number of trees (when the number is chosen automatically: as many as it takes until items and tree nodes are twice as many as the items, up to one more per worker); each tree holds every added item exactly once, shares no node with another tree, leaves no orphaned node, and no item changes. At each split, every item is on the side of the splitting hyperplane where its vector belongs, and neither side is empty; items in general position are split by hyperplanes and not at random, and no two of their trees are the same. The built index answers exhaustive queries exactly.",
["schedules","inputs","configurations"],"all items, ids (dense, sparse, replaced), tree and worker counts, policies, build allocators, and all interleavings of the build workers",
"Tests build a handful of indexes with the schedule the machine happens to produce and check some answers; lost or doubly used nodes appear only in particular interleavings of a reallocation with another worker, and searching rarely reveals one damaged tree.",
[IDX,"index/policy/index_policy_multi.go","index/policy/index_policy_single.go","distance/two_means.go","distance/angular/distance.go","utils/node.go"],
[("node counter and memory growth under the policy's locks",IDX+" makeTree, allocateSize"),("workers share the number of trees","index/policy/index_policy_multi.go Build"),("split node is assembled in private memory and copied when complete",IDX+" makeTree"),("each worker has its own random generator",IDX+" ThreadBuild")],
[("nodes","memory that holds items, tree nodes and copies of roots",IDX),("roots","one per tree",IDX)],["Save's file","GetNnsByVector"])
prop("B02","The forest depends on seed and items only, not on the schedule",
"For given items, random seed, number of trees and number of workers, Build makes the same set of trees whatever the interleaving of the workers, the movement of memory, the pre-allocation hint, an earlier life of the index object that was closed, or other indexes built at the same time.",
["schedules","histories","configurations"],"all interleavings of the workers, allocator behaviours, hints, earlier uses of the object and concurrent builds of other indexes",
"Tests never build the same index twice and compare; a generator shared by workers or a state that survives Close changes trees without making any single answer wrong.",
[IDX,"index/policy/index_policy_multi.go","random/kiss32random.go","random/kiss64random.go"],
[("CloneAndReset and a seed per worker",IDX+" ThreadBuild"),("Close resets the generator",IDX+" Close")],None,["Save's file"])
prop("B03","Build always terminates",
"Build returns, without deadlock or livelock and after a number of steps bounded by a multiple of what one worker after the other needs, for every number of items (also none, one, all equal, all zero), every number of trees or an automatic one, and every number of workers (-1, 0, more workers than trees). Afterwards the index can be searched.",
["schedules","inputs","configurations"],"all degenerate inputs, worker and tree counts, processor counts and interleavings (progress within a bounded number of scheduler steps)",
"Tests only build well-behaved indexes; a lock order or a missing unlock blocks only in a particular interleaving, and splitting items that no hyperplane separates ends only by chance.",
[IDX,"index/policy/index_policy_multi.go"],
[("random sides as last option",IDX+" makeTree"),("stop condition of the automatic number of trees",IDX+" ThreadBuild"),("one worker when 0 are requested","index/policy/index_policy_multi.go Build")])
prop("B04","Building, searching and independent indexes are free of data races",
"In every schedule, no two threads access the same memory without synchronisation, one of them writing: neither the workers of a Build, nor concurrent searches with a context each on one index (built, saved or loaded), nor the users of different indexes, also such that were made by one builder or share a distance, policy, random generator, sorter or file allocator.",
["schedules"],"all interleavings of build workers, searching clients and users of independent indexes",
"The tests are not run with a race detector and search from one thread only; whether two accesses are unordered depends on the schedule.",
[IDX,SE,"index/policy/index_policy_multi.go"],
[("nodes, node counter and roots locks","index/policy/index_policy_multi.go"),("search state is in the caller's context",SE+" GetNnsByVector")])
prop("S01","Concurrent searches answer as if executed alone",
"Queries of any number of clients that search one index at the same time, each with a context of its own, return exactly what they return when executed alone with a new context, whatever was asked with the same context before. Searching changes neither the index, nor the query vectors, nor answers that were returned earlier.",
["schedules","histories"],"all interleavings of searching clients, all sequences of queries with one context, on built, saved and loaded indexes",
"The tests search from one thread, compare no answer with the one of a fresh context and keep no answers.",
[SE],[("a context per client",SE+" CreateContext"),("index is read only while searching",SE)],[("context","candidates and distances of a query, reused by the next",SE)])
prop("S02","Exhaustive search is exact and distances are the metric",
"A search whose budget covers all trees returns exactly the min(k, number of items) nearest items, each once, in order of ascending distance, and reports for each its angular distance (square root of 2-2cos, sqrt 2 if a vector is zero, never NaN or negative); searching by item equals searching by its vector. The distance between two items is the same metric.",
["inputs","schedules","configurations"],"all items (duplicates, zero, parallel, opposite vectors), queries, k, ids, element and index types, allocators and library sorters, on indexes built concurrently and searched concurrently",
"Tests check a few hand-made vectors and an average precision; degenerate vectors, k larger than the index, replaced and absent ids are not sampled.",
[SE,"distance/angular/distance.go","sort/partial_sort.go","sort/sort.go","vector/dot.go"],
[("candidates are made unique, measured and partially sorted",SE+" GetNnsByVector"),("clamped normalisation","distance/angular/distance.go NormalizedDistance")],None,["GetNnsByVector","GetNnsByItem","GetDistance"])
prop("S03","Budgeted search inspects the most promising regions of all trees first",
"A search with budget b inspects whole leaves of all trees in descending order of promise (a leaf's promise is the smallest signed margin of the query to the hyperplanes on the way to it) until b candidates were inspected, and returns the k nearest of exactly these candidates; the default budget is k times the number of trees. Hence an item in general position is found by its own vector with any budget, a larger budget or k never makes an answer worse, and at least min(k, number of items) results are returned with the default budget.",
["inputs","schedules","configurations"],"all forests, queries, budgets and k; compared with the forest parsed from the saved file",
"Tests measure an average precision on random data with one budget, which hardly changes when regions are explored in a wrong order or budgets are miscounted.",
[SE,"sort/priority_queue.go","distance/angular/distance.go"],
[("priority queue of negated margins",SE+" GetNnsByVector"),("PQDistance is the smallest margin on the way","distance/angular/distance.go PQDistance"),("roots have infinite priority","distance/angular/distance.go PQInitialValue")],None,["GetNnsByVector"])
prop("D01","A dot-product index ranks by dot product",
"In an index with dot-product distance, a search whose budget covers all trees returns exactly the min(k, number of items) items with the largest dot product with the query, each once, in descending order, and reports the dot product as the distance, as does the distance between two items. A search with a limited budget returns the best k of the leaves that are most promising over all trees, as with angular distance.",
["inputs","schedules","configurations"],"all items and queries, types, budgets, allocators and sorters, on dot-product indexes built and searched concurrently",
"The test of the dot-product package builds an angular index.",
["distance/dotproduct/distance.go","distance/dotproduct/node.go",SE],[("Distance is the negated dot product","distance/dotproduct/distance.go Distance"),("extra dimension","distance/dotproduct/distance.go PreProcess")],None,["GetNnsByVector","GetNnsByItem","GetDistance"])
prop("P01","A saved index is the same index after loading",
"After Save, and after Load by any other index object with either file allocator, vector length, items, distances and the answers to all queries (also with limited budgets) are the same as those of the index before it was saved, whatever schedule built it. Saving a loaded index again writes the same file, and closing other indexes of the same file changes nothing.",
["schedules","inputs","configurations"],"all forests that concurrent builds produce (roots in any position, trees of a single node), types, allocators, chains of save and load",
"Tests save and load one index built by one worker and compare a single answer; which nodes are taken for roots depends on where concurrent workers put them.",
[IO,"index/memory/index_allocator_mmap.go","index/memory/index_allocator_gcmem.go"],
[("copies of the roots at the end of the file",IDX+" Build"),("roots are recognised from the end",IO+" Load")],None,["Save","Load","GetNnsByVector","GetItem","GetDistance"])
prop("P02","Save replaces a file atomically, also when the machine stops",
"When the process is killed or the machine loses power at any point of Save, the file afterwards is the complete old index (none, if there was none) or the complete new one, and the new one if Save had returned when the process was killed; saving again works. Processes that load the file while it is replaced get the old or the new index, never a mixture or an error, and never the old one after Save returned; indexes that have the old file mapped remain intact, also when an index is saved over the file it was loaded from.",
["crash_points","schedules","fault_sequences"],"a crash of the process or power loss at each I/O operation (with any subset of unsynchronised data and directory updates reaching the disk, torn blocks), and all interleavings of saving with readers",
"No test crashes or reads while saving.",
[IO],[("write to a temporary file, fsync, rename",IO+" replaceFile")],None,["file system"])
prop("P03","I/O errors are reported and never cost the index or the old file",
"When operations of the file system fail while saving or loading (errors, disk full, short writes and reads, early end of file), Save and Load return an error or have succeeded completely, and never panic. A failed Save leaves index and old file intact (or has completely replaced the file), removes its temporary file and can be repeated; a failed Load leaves an empty index that can load again, and unusable files (missing, empty, directories, sizes that are no multiple of the record size) are errors.",
["fault_sequences","inputs"],"one or two faults of each kind at each I/O operation of Save and Load with both allocators, on built, saved and fresh indexes",
"Tests have no failing file system.",
[IO,"index/memory/index_allocator_mmap.go","index/memory/index_allocator_gcmem.go"],
[("errors are returned, the temporary file is removed",IO+" replaceFile"),("whole file is read or an error returned","index/memory/index_allocator_gcmem.go Open")],None,["Save","Load"])
prop("P04","Files, mappings and build memory are released, also after I/O errors",
"In every history of operations on several indexes and files, with and without I/O errors, at most the indexes that are loaded with the mapping allocator hold a file or mapping; Close (also repeated, and of indexes that never held anything) and failed operations release everything, and an index that was loaded or closed has freed the memory it was built in. No file remains that nobody saved, and indexes, also such that share a file allocator, never disturb each other.",
["histories","fault_sequences"],"all sequences of adding, building, saving, loading, closing and searching on up to three indexes and files, with errors of any file operation",
"Tests use one index each, never inspect descriptors or mappings and inject no errors.",
["index/memory/index_allocator_mmap.go","index/memory/index_allocator_gcmem.go",IO,IDX],
[("Close unmaps and closes","index/memory/index_allocator_mmap.go"),("Load closes what was held before",IO+" Load")],None,["open files, mappings and directory of the simulated system"])
prop("L01","Illegal operations are refused and change nothing",
"In every history of operations, what is illegal is refused (error or panic) and changes nothing: building twice, adding new items to a built index or any item to a loaded one, saving what is not built or has no trees, items and queries whose length is not the vector length, reading, measuring or searching by ids at or behind the number of items. Each index behaves as a model that knows its items and whether it is collecting, built or loaded; a search in an index without trees returns nothing, and after Close or a failed Load the object can be used like a new one.",
["histories"],"all sequences of legal and illegal operations on up to three indexes and files",
"Tests follow the one legal sequence add, build, search or save, load, search.",
[IDX,IO,SE],[("guards at the beginning of AddItem, Build, Save, GetNnsByVector",IDX),("Close resets everything",IDX+" Close")],[("state","collecting, built or loaded",IDX)],["all methods of the index"])
prop("A01","An item is what was added, wherever and how often memory moves",
"After any sequence of additions (ids in any order, with gaps, replaced), with any pre-allocation hint and any allocator behaviour within its contract (memory that moves and becomes inaccessible at each reallocation, more than 4 GiB in total), each item that was added reads back bit for bit the vector that was added last, after every addition, after Build, Save and Load. Vectors passed by the caller are not changed, no memory outside of what was allocated is accessed, and a closed object starts anew.",
["inputs","histories","configurations"],"all sequences of additions, hints, element and index types, and allocators that always move memory, make old memory inaccessible, and hold more than 4 GiB",
"Tests add items with ascending ids to an index of some megabytes with an allocator that leaves old memory readable.",
[IDX,"index/memory/gc_index_build_allocator.go","utils/node.go","distance/angular/node.go"],
[("growth by 1.5 with copy",IDX+" allocateSize"),("offsets in 64 bits","distance/angular/distance.go MapNodeToMemory")],None,["GetItem","AddItem"])
prop("P05","Allocators hand out the content of the file, intact until it is closed",
"What a file allocator opens is exactly one complete content the file had, in memory that neither moves nor changes until it is closed, whatever happens to the file (replaced, removed), to other allocations of the same file and to other clients of the allocator. Get finds what was opened last and no longer what was closed; Close can be repeated and releases file and mapping; missing, empty and unreadable files and failed operations are errors that leave nothing behind. The build allocator keeps the content at each reallocation, and memory nobody has written is zero.",
["histories","schedules","fault_sequences"],"all sequences of open, get, close, replacing and removing files by up to three concurrent clients of one allocator, with errors of any file operation, and all sequences of reallocations",
"Tests open one file once through an index; no test replaces a mapped file, shares an allocator or makes its system calls fail.",
["index/memory/index_allocator_mmap.go","index/memory/index_allocator_gcmem.go","index/memory/gc_index_build_allocator.go","interfaces/index_memory.go"],
[("open allocations by name","index/memory/index_allocator_mmap.go Open, Get, Close"),("the whole file is read","index/memory/index_allocator_gcmem.go Open"),("copy to larger memory","index/memory/gc_index_build_allocator.go Reallocate")],None,["Open","Get","Close","Ptr","Reallocate"])
prop("I01","Indexes are independent of each other",
"Several indexes that live at the same time, made by one builder or sharing random generator, distance, policy, sorter or file allocator, and filled, built, saved, loaded, searched and closed concurrently, each hold exactly their own items, answer exactly and have the very trees they have when each lives alone, through several lives of each object. After all are closed, no file or mapping is held.",
["schedules","histories","configurations"],"all interleavings of the users of two or three indexes with any subset of their parts in common",
"Tests use one index at a time; shared state (a builder's default, a distance with scratch memory, an allocator's table) damages another index only when both are in use.",
["builder/index.go",IDX,"index/policy/index_policy_multi.go","index/memory/index_allocator_mmap.go","distance/angular/distance.go"],
[("each index gets a build allocator of its own","builder/index.go Build"),("generators are cloned, not used",IDX+" ThreadBuild")],None,["GetItem","GetNnsByVector","Save's file"])
prop("Q01","Default searches find most of the true neighbours",
"On gaussian and clustered items (angular distance also on items of very different length) of moderate dimension, searches with the default budget find at least the share of the true 10 nearest neighbours that a forest of as many independently made random-projection trees (two-means splits, same leaf capacity, same budget) lets them find, less 12 percentage points (30 with dot product), whatever the schedule of the build.",
["schedules","inputs","configurations"],"random items and queries, dimensions, numbers of trees and workers, all schedules of the build and of the searches; recall over 150 queries per run against an independent reference forest",
"The existing test prints precision but fails at no value; splits that are valid but bad (unbalanced, random, ill-placed) and correlated trees keep every single answer legal.",
["distance/two_means.go","distance/angular/distance.go","distance/dotproduct/distance.go",IDX,SE],
[("two-means centroids","distance/two_means.go"),("hyperplane between centroids","distance/angular/distance.go CreateSplit"),("independent random numbers per worker",IDX+" ThreadBuild")],None,["GetNnsByVector"])
N=[]
def na(id,title,statement,over,text,why,files,mech,reason):
    prop(id,title,statement,over,text,why,files,mech); N.append({"property":id,"reason":reason})
exec(open(D+'/na.py').read())
with open(D+'/../properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
notes={
"B01":"Seeded search over schedules (statement-level preemption of the real build code) with an independent parser of the saved file as oracle; covers only what was sampled.",
}
NOTE=json.load(open(D+'/notes.json'))
checks=[]
for p in P:
    if any(n["property"]==p["id"] for n in N): continue
    checks.append({"property":p["id"],"quick_cmd":"bin/check "+p["id"],"thorough_cmd":"VERIF_TIER=thorough bin/check "+p["id"],
      "technique":"deterministic simulation with fault injection (seeded search over schedules"+(" and faults" if p["id"] in("P02","P03","P04") else "")+")",
      "level":"exploration","level_note":NOTE[p["id"]]})
M={"version":1,"setup_cmd":"bin/setup","checks":checks,"not_applicable":N,
"notes":"No hooks in /repo: the checks instrument a copy of /repo's working tree (sim/instr) in a temporary directory. bin/replay FILE reproduces a reported violation."}
json.dump(M,open(D+'/../MANIFEST.json','w'),indent=1,ensure_ascii=False); open(D+'/../MANIFEST.json','a').write("\n")

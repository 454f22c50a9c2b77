"""Which workloads, built how, decide which property."""

GPP = "g++ -std=c++17 -w"
SAN = " -fsanitize=address,undefined -fno-sanitize=null,pointer-overflow -fno-sanitize-recover=all"
# null: misuse traps on the null page on purpose, so only C29 has it on (mode "null"); elsewhere a real null access is
# seen as the trap it is. pointer-overflow: an empty Vector iterates over the pointers 0..0, which is outside the properties.
MODES = {
    "null":  {"cc": GPP + " -O1 -g1 -fsanitize=address,undefined -fno-sanitize=pointer-overflow -fno-sanitize-recover=all"},
    "san":   {"cc": GPP + " -O1 -g1" + SAN},
    "fast":  {"cc": GPP + " -O2 -DNDEBUG"},
    "clang": {"cc": "clang++ -std=c++17 -w -O1 -g1" + SAN},
    "msan":  {"cc": "clang++ -std=c++17 -w -O1 -g1 -fsanitize=memory -fno-sanitize-recover=all"},
    "sma":   {"cc": GPP + " -O1 -g1 -DENABLE_SMA -DVH_ALLOC=dstruct::Alloc -DVH_SMALL_ALIGN" + SAN},
    "smamis": {"cc": GPP + " -O1 -g1 -DENABLE_SMA" + SAN},
    # one program in many configurations, see h_config.cpp
    "cfg-g11": {"cc": "g++ -std=c++11 -w -O0"},
    "cfg-g11-ndebug": {"cc": "g++ -std=c++11 -w -O2 -DNDEBUG"},
    "cfg-g14-san": {"cc": "g++ -std=gnu++14 -w -O1 -g1" + SAN},
    "cfg-g17-lto": {"cc": "g++ -std=c++17 -w -O3 -flto"},
    "cfg-g20-small": {"cc": "g++ -std=c++20 -w -Os -fno-exceptions -fno-rtti -fshort-enums"},
    "cfg-c11": {"cc": "clang++ -std=c++11 -w -O0"},
    "cfg-c17-uchar": {"cc": "clang++ -std=c++17 -w -O2 -DNDEBUG -funsigned-char"},
    "cfg-g11-sma": {"cc": "g++ -std=c++11 -w -O1 -DENABLE_SMA"},
    "cfg-c20-sma-ndebug": {"cc": "clang++ -std=c++20 -w -O2 -DENABLE_SMA -DNDEBUG"},
    "cfg-g17-sma-log": {"cc": "g++ -std=gnu++17 -w -O0 -DENABLE_SMA -DENABLE_SMA_LOG"},
    "cfg-g11-sma-dump": {"cc": "g++ -std=c++11 -w -O1 -DENABLE_SMA -DENABLE_SMA_LOG -DENABLE_SMA_DUMP"},
    "cfg-g11-sma-check": {"cc": "g++ -std=c++11 -w -O1 -DENABLE_SMA -DENABLE_SMA_DUMP"},
    "cov-steps": {"cc": GPP + " -O1 -g1 -fsanitize-coverage=trace-pc"},
    "tsan":  {"cc": GPP + " -O1 -g1 -fsanitize=thread", "ld": "-lpthread"},
}

UNITS = {
    "vector": {"src": "h_vector.cpp"}, "string": {"src": "h_string.cpp"}, "list": {"src": "h_list.cpp"},
    "deque0": {"src": "h_deque.cpp", "part": 0}, "deque1": {"src": "h_deque.cpp", "part": 1}, "deque2": {"src": "h_deque.cpp", "part": 2},
    "queue": {"src": "h_adapters.cpp", "part": 0}, "stack": {"src": "h_adapters.cpp", "part": 1},
    "xstack": {"src": "h_xstack.cpp"}, "heap0": {"src": "h_heap.cpp", "part": 0}, "heap1": {"src": "h_heap.cpp", "part": 1},
    "tree0": {"src": "h_tree.cpp", "part": 0}, "tree1": {"src": "h_tree.cpp", "part": 1},
    "tree2": {"src": "h_tree.cpp", "part": 2}, "tree3": {"src": "h_tree.cpp", "part": 3},
    "map0": {"src": "h_map.cpp", "part": 0}, "map1": {"src": "h_map.cpp", "part": 1},
    "uf": {"src": "h_uf.cpp"}, "embedded": {"src": "h_embedded.cpp"}, "array": {"src": "h_array.cpp"},
    "sma": {"src": "h_sma.cpp"}, "misuse": {"src": "h_misuse.cpp"}, "cmp": {"src": "h_cmp.cpp"}, "smem": {"src": "h_smem.cpp"},
    "bound0": {"src": "h_bound.cpp", "part": 0}, "bound1": {"src": "h_bound.cpp", "part": 1}, "bound2": {"src": "h_bound.cpp", "part": 2},
    "threads": {"src": "h_threads.cpp"}, "config": {"src": "h_config.cpp", "more": ["h_config2.cpp"]},
}
NEST = ["nest%d" % i for i in range(11)]
UNITS.update({u: {"src": "h_nest.cpp", "part": i} for i, u in enumerate(NEST)})
UNITS["steps"] = {"src": "h_steps.cpp"}
UNITS["huge"] = {"src": "h_huge.cpp"}
ITER = ["iter0", "iter1", "iter2"]
UNITS.update({u: {"src": "h_iter.cpp", "part": i} for i, u in enumerate(ITER)})
DEQUE = ["deque0", "deque1", "deque2"]
HEAP = ["heap0", "heap1"]
BST = ["tree0", "tree1"]
AVL = ["tree2", "tree3"]
MAP = ["map0", "map1"]
SEQ = ["vector", "string", "list"] + DEQUE + ["queue", "stack", "xstack"] + HEAP
ALLC = SEQ + BST + AVL + MAP + ["uf"]      # everything which owns memory
ALLR = "random,bst,avl"
ALLX = "exhaustive,bst-exhaustive,avl-exhaustive"

BASE, COPY, MOVE, ALIAS = 1, 2, 4, 8


def job(units, modes, classes, **kw):
    return dict(units=units, modes=modes, classes=classes, **kw)


def functional(units, suite=None, scale=60, fscale=100, shards=1, classes="model", depth=1, **kw):
    """sanitizer build for depth per case, optimised build without assertions for volume"""
    return [job(units, "san", classes, suite=suite, scale=scale, shards=shards, **kw),
            job(units, "fast", classes, suite=suite, scale=fscale, shards=shards, depth=depth, **kw),
            job(units, "clang", classes, suite=suite, scale=scale, tier="thorough", shards=shards, **kw)]


def huge(kind, shards=2):
    """sizes past 2^16; the sanitizers look at the same histories in C29"""
    return [job(["huge"], "fast", "model", suite="huge-" + kind, scale=100, tscale=600, shards=shards),
            job(["huge"], "san", "model", suite="huge-" + kind, tscale=200, tshards=4, tier="thorough")]


PLAN = {
    "C01": {"jobs": functional(["vector"], shards=3) + huge("vector")},
    "C02": {"jobs": functional(["array"], scale=100, shards=2)},
    "C03": {"jobs": functional(["string"], shards=3) + huge("string")},
    "C04": {"jobs": functional(["list"], shards=4) + huge("list")},
    "C05": {"jobs": functional(["embedded"], suite="lists,lists-exhaustive", shards=4)},
    "C06": {"jobs": functional(DEQUE, shards=2) + huge("deque")},
    "C07": {"jobs": functional(["queue", "stack"], shards=2) + huge("adapters")},
    "C08": {"jobs": functional(["xstack"], shards=3) + huge("xstack")},
    "C09": {"jobs": functional(HEAP, shards=2) + huge("heap")},
    "C10": {"jobs": functional(BST, shards=2) + huge("bst")},
    "C11": {"jobs": functional(AVL, shards=2) + huge("avl")},
    "C12": {"jobs": functional(BST + AVL, suite="bst,avl,bst-exhaustive,avl-exhaustive", scale=25, fscale=40) +
                    functional(["embedded"], suite="tree,tree-exhaustive", shards=2)},
    "C13": {"jobs": functional(MAP, shards=2) + huge("map")},
    "C14": {"jobs": functional(["uf"], shards=3)},
    "C15": {"jobs": [job(["huge"], "fast", "model,lifetime,alloc,leak", ops=BASE | COPY, scale=100, tscale=300, shards=4), job(ALLC, "san", "model,lifetime,alloc,leak", suite=ALLR, ops=BASE | COPY, scale=30)] +
                    [job(["cmp"], "san", "model,lifetime,alloc,leak", scale=30, tier="thorough")]},
    "C16": {"jobs": [job(["huge"], "fast", "model,lifetime,alloc,leak", ops=BASE | MOVE, scale=100, tscale=300, shards=4), job(ALLC, "san", "model,lifetime,alloc,leak", suite=ALLR, ops=BASE | MOVE, scale=30)]},
    "C17": {"jobs": [job(["huge"], "fast", "lifetime", suite="huge-tracked,huge-vector", scale=100, tscale=400, shards=2), job(ALLC, "san", "lifetime", suite=ALLR, scale=40), job(["vector", "list"] + DEQUE + HEAP + BST + AVL + MAP, "fast", "lifetime", suite=ALLX, scale=100),
                     job(["bound0", "bound1", "bound2", "misuse"], "san", "lifetime", tier="thorough")]},
    "C18": {"jobs": [job(["huge"], "fast", "alloc,leak", scale=100, tscale=200, shards=4), job(ALLC, "san", "alloc,leak,malloc", suite=ALLR, scale=40), job(["array", "embedded", "smem", "cmp"], "san", "alloc,leak,malloc", suite="random,ranges,scalars,lists,tree,smem,cmp", scale=20),
                     job(ALLC, "fast", "alloc,leak", suite=ALLX, tier="thorough")]},
    "C19": {"jobs": functional(["sma"], classes="smablock", scale=60, fscale=60, shards=4, tscale=200, depth=0)},
    "C20": {"jobs": functional(["sma"], classes="smaacct", scale=60, fscale=60, shards=4, tscale=200, depth=0)},
    "C21": {"jobs": functional(["sma"], classes="smamerge", scale=60, fscale=60, shards=4, tscale=200, depth=0)},
    "C22": {"jobs": [job(ALLC, "sma", "model,lifetime,alloc,leak,malloc,smablock,smaacct,smamerge", suite=ALLR, scale=30),
                     job(["smem"], "san", "model,lifetime,leak,malloc,smablock,smaacct,smamerge", scale=100, shards=2),
                     job(["nest1", "nest8"], "sma", "model,lifetime,alloc,leak,malloc,smablock,smaacct,smamerge", suite="nest", scale=50),
                     job(["misuse"], "smamis", "model,lifetime,failstop,leak,malloc,smablock,smaacct,smamerge", suite="merge,misuse", scale=40)]},
    "C23": {"jobs": [job(ALLC, "san", "model,lifetime,alloc", suite=ALLR, ops=BASE | ALIAS, scale=40)]},
    "C24": {"jobs": [job(["misuse"], "san", "failstop,model", suite="misuse", shards=3), job(["misuse"], "smamis", "failstop,model", suite="misuse", shards=3)]},
    "C25": {"jobs": [job(ALLC, "san", "failstop", suite=ALLR, fault=8, scale=2)], "level": "fault_enumeration", "rule": "fault"},
    "C26": {"jobs": [job(["bound0", "bound1", "bound2"], "san", "bound", suite="bound,big", shards=2)]},
    "C27": {"jobs": [job(["bound0", "bound1", "bound2"], "san", "cost", suite="bound,big", shards=2), job(["uf"], "san", "cost", suite="large"),
                     job(["steps"], "cov-steps", "cost", same=True, scale=100, tscale=600, shards=2)]},
    "C28": {"jobs": [job(["list"] + DEQUE + BST + AVL + MAP, "san", "stability", suite=ALLR + ",large", scale=60), job(["list"] + DEQUE + BST + AVL + MAP, "fast", "stability", suite=ALLX)]},
    "C29": {"jobs": [job(["huge"], "null", "crash,hang", scale=50, tscale=200, shards=12), job(ALLC, "null", "crash,hang", suite=ALLR, scale=20), job(["array", "embedded", "sma"], "null", "crash,hang", suite="random,ranges,lists,tree,carve", scale=15),
                     job(["vector", "list", "string"] + DEQUE + ["heap0", "tree1", "tree3", "map0", "xstack"], "msan", "crash,hang", suite=ALLR, scale=20),
                     job(ALLC, "clang", "crash,hang", tier="thorough", scale=20), job(ALLC + ["array", "embedded", "sma", "cmp"], "msan", "crash,hang", tier="thorough", scale=20)]},
    "C30": {"jobs": functional(["cmp"], scale=100, fscale=200, shards=3)},
    "C31": {"jobs": [job(["threads"], "tsan", "model", scale=4000, shards=4, tscale=60000)], "rule": "threads"},
    "C32": {"jobs": [job(["config"], "cfg-g11,cfg-g11-ndebug,cfg-g14-san,cfg-g17-lto,cfg-g20-small,cfg-c11,cfg-c17-uchar,cfg-g11-sma,cfg-c20-sma-ndebug", "model", same=True, scale=200, tscale=1200),
                     job(["config"], "cfg-g17-sma-log,cfg-g11-sma-dump,cfg-g11-sma-check", "model", same=True, scale=15, tscale=120)], "rule": "config"},
    "C33": {"jobs": [job(NEST, "san", "model,lifetime,alloc,leak,malloc", suite="nest"),
                     job(NEST, "sma,clang", "model,lifetime,alloc,leak,malloc", suite="nest", tier="thorough")]},
    "C35": {"jobs": [job(["steps"], "cov-steps", "cost,model,crash,hang", same=True, scale=400, tscale=6000, shards=6)]},
    "C34": {"jobs": functional(ITER, suite="iter", shards=2)},
}

RULES = {
    "history": "One evaluation is one history of operations on one or more live objects of one workload configuration (element type, block size, comparator, allocator placement). "
               "Random histories are drawn from VERIF_SEED; exhaustive configurations enumerate every history of a bounded length. "
               "A history is non-trivial if it has at least three operations and at least one of them removes, replaces, frees or reorders; two are the same if configuration and operation sequence with arguments hash equal.",
    "fault": "One evaluation is one history of operations, run once without and then again in child processes, each with another of its allocations failing. "
             "Non-trivial: at least three operations, one of which removes or replaces, and at least one failing allocation; distinct by the sequence of operations, of failed allocation ordinals and of outcomes.",
    "config": "One evaluation is one random history of operations on two objects of one kind, executed in one build configuration, with operations alternating between two translation units; every result observed goes into a digest, "
              "and the digests of the same history in all configurations are compared. distinct_nontrivial counts distinct histories (kind of object and operation sequence).",
    "threads": "One evaluation is one thread of one round (six threads on objects of their own, on objects of one type, or reading shared const objects). "
               "distinct_nontrivial counts distinct observed interleavings: the sequence of thread ids over all operations of a round, recorded without synchronisation.",
}
ASSUME = [
    "Verdicts hold for the executions which were run, not for all executions.",
    "Preconditions as listed in DESIGN.md are respected by the workloads.",
]

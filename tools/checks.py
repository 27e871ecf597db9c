# Configuration of the checks: what is built, how many runs, what the evidence says.
import cuda_source
INSTRUMENT = ["-fsanitize=kernel-address", "-mllvm", "-asan-instrumentation-with-call-threshold=0", "-mllvm", "-asan-stack=0",
              "-mllvm", "-asan-globals=0", "-mllvm", "-asan-kernel-mem-intrinsic-prefix=1", "-mllvm", "-asan-instrument-atomics=0", "-mllvm", "-asan-opt=0", "-mllvm", "-asan-opt-globals=0"]
WRAP = ["malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc",
        "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"]

STUB_HEAP = "operator new/delete, malloc/free: simulated heap (placement, recycling, content, failures decided by the seed)"
STUB_THREADS = "threads: fibers switched by the seeded scheduler at memory accesses of library code"

CHECKS = {
    "C01": {
        "source": "c01.cpp", "parts": 6, "runs": {"quick": 112000, "thorough": 3000000},
        "rule": "one run = 2-4 simulated threads running read-only operations on one shared container under one seeded interleaving (switches at single memory accesses); "
                "non-trivial: at least two threads ran; distinct: hash of the switch/operation log",
        "real": ["soa_grid, soa_vector, soa_array, accessors, functors, staging_buffer, aligned_allocator"],
        "stub": [STUB_HEAP, STUB_THREADS],
        "technique": "seeded interleavings of concurrent readers on simulated threads, memory conflicts of every access checked",
        "note": "Seeded sampling of interleavings; any write by a reader to memory visible to another thread is reported in every interleaving that reaches it, not only in those where values get corrupted. Evidence, not proof.",
    },
    "C02": {
        "source": "c02.cpp", "parts": 7, "runs": {"quick": 162000, "thorough": 4000000},
        "rule": "one run = 2-4 simulated threads writing disjoint random parts of one shared container and reading parts nobody writes (or working on containers of their own) under one seeded interleaving; "
                "non-trivial: at least two threads ran; distinct: hash of the switch/operation log",
        "real": ["soa_grid, soa_vector, soa_array, accessors, functors, staging_buffer, aligned_allocator"],
        "stub": [STUB_HEAP, STUB_THREADS],
        "technique": "seeded interleavings of concurrent disjoint writers and readers against a sequential model, memory conflicts checked",
        "note": "Seeded sampling of interleavings and partitions; conflicting accesses are found in any interleaving of the two operations, bytes outside all cells are compared before/after. Evidence, not proof.",
    },
    "C03": {
        "source": "c03.cpp", "parts": 6, "runs": {"quick": 64000, "thorough": 2500000}, "flags": ["-ffp-contract=off"],
        "variants": [("scalar", ["-DLIBFLATARRAY_WIDEST_VECTOR_ISA=LIBFLATARRAY_SCALAR"], []), ("sse2", [], []), ("sse4", ["-msse4.2"], ["sse4_2"]),
                     ("avx", ["-mavx"], ["avx"]), ("avx2", ["-march=x86-64-v3"], ["avx2", "fma"]),
                     ("avx512", ["-march=x86-64-v4", "-DLIBFLATARRAY_WIDEST_VECTOR_ISA=LIBFLATARRAY_AVX512F"], ["avx512f", "avx512bw", "avx512dq", "avx512vl"])],
        "rule": "one run = 1-4 simulated threads updating an arbitrary partition of rows/ranges of a grid (or particles in a vector/array) with packed kernels through the loop peeler for 1-3 steps with swaps, "
                "under one seeded interleaving, in one of 6 builds (scalar, SSE2, SSE4, AVX, AVX2, AVX-512); non-trivial: at least one thread swept; distinct: hash of the plan/switch log",
        "real": ["loop_peeler (macro and function), short_vec and streaming_short_vec (double, float, int; arity 1-32; all x86 instruction sets), soa_grid dual callbacks and swap, soa_vector, soa_array, accessors"],
        "stub": [STUB_HEAP, STUB_THREADS, "stencil and scalar reference: part of the harness"],
        "technique": "seeded interleavings of threads sweeping seeded partitions with packed kernels, compared bit for bit with the sequential scalar update, memory conflicts checked",
        "note": "Seeded sampling of partitions, widths, peeling styles, load/store flavours and interleavings; both grids and all bytes between the cells are compared after each step. NEON, QPX, MIC and CUDA code paths do not run on this machine. Evidence, not proof.",
        "assumptions": ["compiled without contraction of floating point expressions", "NaN payloads are not compared", "single precision packed quotients are compared with a tolerance of 1/1000, for operands of magnitude 10^-3 to 10^6", "operands of packed integer division and square roots stay below 2^24"],
    },
    "C04": {
        "source": "c04.cpp", "parts": 7, "runs": {"quick": 256000, "thorough": 6000000},
        "rule": "one run = one seeded history of 3-20 grid operations on up to three grids of one of 10 cell types/size tables, with failing allocations; "
                "non-trivial: at least one grid was created and operated on; distinct: hash of the operation/fault log",
        "real": ["all of include/libflatarray: soa_grid, accessors, functors, aligned_allocator"],
        "stub": [STUB_HEAP],
        "technique": "seeded histories of grid operations with failing allocations against a 3D array model",
        "note": "Seeded sampling of histories and allocation failure points; every cell, dimension, extent and byte size is compared with the model, all accesses of library code are checked against the simulated heap. Evidence, not proof.",
    },
    "C05": {
        "source": "c05.cpp", "parts": 4, "runs": {"quick": 192000, "thorough": 5000000},
        "rule": "one run = one seeded history of 3-20 operations on grids, vectors or arrays of cells with tracked members (each owning heap memory), with failing member constructors, copies and allocations; "
                "non-trivial: at least one container was created and operated on; distinct: hash of the operation/fault log",
        "real": ["soa_grid, soa_vector, soa_array, construct/destroy functors, accessors, aligned_allocator"],
        "stub": [STUB_HEAP, "member type: instrumented class with a registry of live objects by address"],
        "technique": "seeded histories with failing member operations and allocations, life time of every member object tracked by address",
        "note": "Seeded sampling of histories and failure points; every construction, use and destruction of a member is checked against a registry of live objects. Evidence, not proof.",
    },
    "C06": {
        "source": "c06.cpp", "parts": 4, "runs": {"quick": 256000, "thorough": 6000000},
        "rule": "one run = one seeded history of 3-24 vector operations on up to three vectors of one of 8 cell types, with failing allocations and (tracked members) failing member constructors/copies; "
                "non-trivial: at least one vector was created and operated on; distinct: hash of the operation/fault log",
        "real": ["soa_vector, soa_grid, accessors, functors, aligned_allocator"],
        "stub": [STUB_HEAP],
        "technique": "seeded histories of vector operations with failing allocations and member copies against a sequence model",
        "note": "Seeded sampling of histories and failure points; all elements and sizes are compared with the model. Evidence, not proof.",
    },
    "C07": {
        "source": "c07.cpp", "parts": 4, "runs": {"quick": 480000, "thorough": 6000000},
        "rule": "one run = one seeded history of 3-24 operations on up to six arrays of three capacities (1-64) of one of 9 cell types, with failing allocations and member constructors/copies; "
                "non-trivial: at least one array was created and operated on; distinct: hash of the operation/fault log",
        "real": ["soa_array, accessors, member copy helpers"],
        "stub": [STUB_HEAP],
        "technique": "seeded histories of array operations with failing allocations and member copies against a bounded sequence model",
        "note": "Seeded sampling of histories and failure points; all elements and sizes are compared with the model; arrays lie in guarded blocks. Evidence, not proof.",
    },
    "C08": {
        "source": "c08.cpp", "parts": 3, "runs": {"quick": 240000, "thorough": 5000000},
        "rule": "one run = one seeded history of allocate/use/deallocate over 17 (type, alignment) pairs on a heap returning arbitrary addresses, by one or 2-4 threads handing blocks over, "
                "or a history of containers (std::vector, grids, vectors) using the allocator with other alignments or a bookkeeping user allocator; failing heap requests injected; "
                "non-trivial: at least one block was requested; distinct: hash of operations, faults and switches",
        "real": ["aligned_allocator, soa_grid, soa_vector, std::vector"],
        "stub": [STUB_HEAP, STUB_THREADS],
        "technique": "seeded allocate/release histories and interleavings over a simulated heap with arbitrary addresses and failures",
        "note": "Seeded sampling of sizes, addresses (any multiple of 16 modulo 4096), failures and interleavings; content of all live blocks re-verified after each operation. Evidence, not proof.",
    },
    "C09": {
        "source": "c09.cpp", "parts": 6, "runs": {"quick": 252000, "thorough": 5000000},
        "rule": "one run = one seeded history of valid and refused requests on grids, vectors or arrays (or boundary sizes of the default tables requested while no memory is left); "
                "non-trivial: containers existed while requests were made; distinct: hash of the operation log",
        "real": ["soa_grid, soa_vector, soa_array, size tables, accessors, aligned_allocator"],
        "stub": [STUB_HEAP],
        "technique": "seeded histories mixing valid and invalid requests, full state compared with a model after each; exhausted memory tells refused from supported sizes",
        "note": "Seeded sampling of histories; every cell of every container is compared after each refusal. Evidence, not proof.",
    },
    "C10": {
        "source": "c10.cpp", "parts": 3, "runs": {"quick": 153000, "thorough": 4000000},
        "rule": "one run = either 1-5 transfers of random regions (boxes, streak sequences, padded buffers) between two grids of different size and layout, "
                "or a domain-decomposed stencil simulation of 2-4 nodes over a network that delays, reorders, loses and duplicates messages, with crashing nodes restarting from checkpoints; "
                "non-trivial: cells were shipped; distinct: hash of the operation/fault log",
        "real": ["soa_grid save/load/callback/swap, save/load functors, accessors, member copy helpers, aligned_allocator"],
        "stub": [STUB_HEAP, "network and stable storage: in-memory queue and log driven by the seeded scheduler", "retransmission protocol and stencil: part of the harness"],
        "technique": "seeded simulation of nodes exchanging saved regions over a faulty network with crashes and restarts, compared with an undivided reference",
        "note": "Seeded sampling of regions, delivery orders, losses, duplications and crash points; every node is compared with the reference after every step. Evidence, not proof.",
    },
    "C11": {
        "source": "c11.cpp", "parts": 6, "runs": {"quick": 22000, "thorough": 900000},
        "flags": ["-D__CUDACC__"], "config": "#define LIBFLATARRAY_WITH_CUDA 1\n", "prepare": cuda_source.prepare,
        "rule": "one run = one seeded history of 3-20 operations on device grids (one of 5 cell types), device arrays (one of 3 element types) or soa_arrays used by kernels; "
                "device threads run in a seeded order, launches immediately or deferred until the host synchronises, device allocations fail; "
                "non-trivial: a container was created on the device; distinct: hash of the operation/fault log",
        "real": ["soa_grid with cuda_allocator and CUDA functors, cuda_array, staging buffers, launch configuration, kernels, soa_array's device variant"],
        "stub": [STUB_HEAP, "CUDA runtime and device: simulated memory region, allocator, copies and in-order launch queue (workloads/cuda); kernel launches are rewritten textually from the repository's headers to calls of the simulated launcher"],
        "technique": "seeded histories on a simulated accelerator with seeded thread orders, deferred launches and failing device allocations, against a host model",
        "note": "Seeded sampling of histories, thread orders and failures; every access of host and device code is checked for being on its own side, in bounds and free of conflicts within a launch. Evidence, not proof.",
    },
    "C12": {
        "source": "c12.cpp", "parts": 0, "runs": {"quick": 240000, "thorough": 3000000}, "flags": ["-I$HERE/workloads/cuda"],
        "wrap": ["popen", "pclose", "fclose", "fopen", "fopen64", "read", "fgets", "gettimeofday", "time", "clock_gettime", "gethostname", "uname", "write"], "link": ["-static-libstdc++"],
        "rule": "one run = 1-6 operations (describe CPU/GPU, read the clock, evaluate a benchmark) in a seeded environment (tool output, CPU list, clock, host name, GPU driver, terminal) that changes in between; "
                "non-trivial: always (at least one description and one operation); distinct: hash of the operation/fault log and the texts",
        "real": ["benchmark, cpu_benchmark, gpu_benchmark, evaluate, the C++ library's file streams and stdio"],
        "stub": [STUB_HEAP, "topology tool, /proc/cpuinfo, clock, host name, CUDA runtime, standard output: simulated"],
        "technique": "seeded environments (failing, truncated, interrupted or garbled sources, clock jumps, full output) with reports compared to a reference",
        "note": "Seeded sampling of environment contents, failures and histories; texts and report columns are compared with an independent reference, open files and pipes are counted after each call. Evidence, not proof.",
    },
    "C13": {
        "source": "c13.cpp", "parts": 5, "runs": {"quick": 120000, "thorough": 3000000},
        "rule": "one run = one seeded history of container operations executed twice in a row, the second time with other heap addresses, recycled memory, garbage and neighbouring containers; all observations compared; "
                "non-trivial: both executions took place; distinct: hash of the operation/fault log",
        "real": ["soa_grid, soa_vector, soa_array, construct functors, accessors, aligned_allocator"],
        "stub": [STUB_HEAP],
        "technique": "seeded histories executed twice under different simulated heaps (addresses, garbage, neighbours), observations compared",
        "note": "Seeded sampling of histories and heap layouts; fresh memory is filled with garbage, so reading anything uninitialised shows up as a difference between the two executions or to the model. Evidence, not proof.",
    },
}

NOT_APPLICABLE = {
    "C20": "pure function of its inputs: no schedule, clock, I/O, allocation or other fault influences packed arithmetic",
    "C21": "pure compile-time/table lookup; its consequences under histories are observed by C04 and C09",
    "C22": "compile-time constants of a type; nothing for a scheduler or fault to influence",
    "C23": "preprocessor metaprogramming, decided at compile time",
    "C24": "compile-time type computation",
}

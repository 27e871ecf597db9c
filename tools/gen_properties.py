#!/usr/bin/env python3
"""Writes properties.jsonl (kept in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})
I = "include/libflatarray/"
prop("C01", "Concurrent readers of one container never disturb each other or the data",
 "Any number of threads may run read-only operations (reading single cells or ranges, saving regions to a buffer, read-only callbacks with neighbour access, copying) on the same grid, vector or array at the same time, without locks. Every reader obtains exactly the stored values, no read-only operation modifies anything but the reader's own output, and no two of them conflict in memory, whatever the interleaving.",
 ["schedules", "inputs", "configurations"], "all interleavings of the memory accesses of 2-4 reader threads, all container shapes, cell layouts, regions",
 "The test-suite is single threaded: no test ever has two readers in flight; a race is invisible to it.",
 [I+"soa_grid.hpp", I+"detail/staging_buffer.hpp", I+"detail/get_instance_functor.hpp", I+"detail/save_functor.hpp", I+"soa_vector.hpp", I+"soa_array.hpp", I+"macros.hpp"],
 [("stateless staging of caller buffers", I+"detail/staging_buffer.hpp"), ("const accessors and const callback()", I+"soa_grid.hpp")],
 ["values returned by get/save/callbacks", "memory accesses of each simulated thread"])
prop("C02", "Concurrent writers of disjoint cells behave as if run one after another",
 "Threads which concurrently write disjoint cells of the same grid, vector or array (single cells, and for grids ranges, broadcasts, loading regions from buffers, member-wise writes through callbacks) while others read cells nobody writes leave exactly the state of a sequential execution. An operation touches no cell, member or byte outside the region it was asked to write, and readers see untouched values. Threads working on containers of their own never interact.",
 ["schedules", "inputs", "configurations"], "all interleavings of 2-4 writer/reader threads over all disjoint partitions of the cells, shapes and cell layouts",
 "Tests write from one thread only, mostly to fixed regions, and rarely look at the neighbours of the region written.",
 [I+"soa_grid.hpp", I+"detail/set_instance_functor.hpp", I+"detail/load_functor.hpp", I+"detail/staging_buffer.hpp", I+"macros.hpp", I+"detail/macros.hpp", I+"detail/soa_array_member_copy_helper.hpp"],
 [("index computation from coordinates and compile-time extents", I+"macros.hpp"), ("strided member copies", I+"detail/macros.hpp")],
 ["final content of every cell", "memory accesses of each simulated thread"])
prop("C03", "Parallel vectorised sweeps equal the sequential scalar update",
 "A stencil update from one grid into another, executed by several threads over an arbitrary partition of rows and ranges, with neighbour access through relative coordinates, packed loads/stores (ordinary, gathering/scattering through any offsets, and streaming) of any supported width and the loop peeler handling the unaligned head and tail, yields bit for bit the result of the scalar sequential update (packed single precision division and reciprocal square roots are approximations by design, equal to about a thousandth for operands of moderate size; packed integer division and square roots of magnitudes of 2^24 and more, computed in single precision, aside); lanes counted or selected by masks are those the scalar comparison selects. No thread writes outside its part, for any begin, end and alignment of the parts, and ping-ponging the grids by swap keeps this true over many steps.",
 ["schedules", "inputs", "configurations"], "all interleavings and barrier orders, all partitions into [begin, end) ranges (empty, shorter than a vector, unaligned), vector widths and element types, instruction sets of the machine",
 "Tests peel a handful of fixed ranges that all span several vectors and run every kernel on one thread over the full row.",
 [I+"loop_peeler.hpp", I+"short_vec.hpp", I+"streaming_short_vec.hpp", I+"macros.hpp", I+"soa_grid.hpp", I+"detail/dual_callback_helper.hpp"],
 [("head/tail peeling", I+"loop_peeler.hpp"), ("compile-time neighbour offsets", I+"macros.hpp"), ("loads/stores of packed types", I+"detail/")],
 ["content of the target grid after each step", "memory accesses of each simulated thread"])
prop("C04", "Grid histories match a plain 3D array, even when memory runs out",
 "Any sequence of grid operations (create, copy, assign, swap, resize, set/get of cells and ranges, broadcast, save/load, callbacks, destruction) observes exactly what an ordinary 3D array of records would show, and dimensions, extents and byte size stay consistent with it. If an allocation fails inside an operation, the error is reported, all other grids are untouched, the operand keeps its old content (cells being overwritten: their old or new value) or is empty, and it can be used, resized and destroyed afterwards without leak, double release or access to released memory.",
 ["histories", "inputs", "fault_sequences"], "all operation histories, all shapes (1D-3D, custom/default/uniform size tables), failure of any allocation at any point",
 "Tests run short fixed histories and never make an allocation fail.",
 [I+"soa_grid.hpp", I+"api_traits.hpp", I+"detail/set_byte_size_functor.hpp", I+"detail/copy_functor.hpp", I+"detail/save_functor.hpp", I+"detail/load_functor.hpp", I+"aligned_allocator.hpp"],
 [("resize() rejects/allocates before committing", I+"soa_grid.hpp"), ("copy via temporary and swap", I+"soa_grid.hpp")],
 ["values read back", "dimensions/extents", "simulated heap"])
prop("C05", "Every member object is constructed once, used alive, destroyed once",
 "For element types with non-trivial members, each member object stored in a grid, vector or array is constructed before it is read or assigned and destroyed exactly once, and never relocated bytewise; nothing is destroyed that was not constructed. This holds for all operation histories, including when a member's constructor or assignment, or an allocation it needs, fails at any point, after which the containers stay usable.",
 ["histories", "fault_sequences", "inputs"], "all histories of container operations; an exception from any member construction/assignment or allocation",
 "A few tests count c-tor/d-tor calls on success paths; no test lets a member throw.",
 [I+"detail/construct_functor.hpp", I+"detail/destroy_functor.hpp", I+"detail/generic_destruct.hpp", I+"detail/macros.hpp", I+"macros.hpp", I+"soa_grid.hpp", I+"soa_vector.hpp", I+"soa_array.hpp"],
 [("construct_members/destroy_members", I+"macros.hpp"), ("roll back of partial construction", I+"detail/construct_functor.hpp")],
 ["registry of live member objects by address", "simulated heap"])
prop("C06", "Vector histories match a sequential container, even under failures",
 "Any history of vector operations (create, fill, copy, assign, set/get, push/emplace/pop, resize, reserve, clear, callbacks) shows the same elements, size and emptiness as an ordinary dynamic array (elements exposed by resizing hold the default value or what was stored there before; after pop_back the default); capacity is never below size, reserving provides what was asked for and never reduces it, growing or reserving never loses, reorders or alters existing elements, and copies are independent. An operation that fails (allocation, element copy, unsupported size) leaves size and all elements outside the one being written unchanged, and the vector usable.",
 ["histories", "inputs", "fault_sequences"], "all histories, growth across all capacity steps, failure at any allocation or element copy",
 "Tests grow one vector of trivially copyable cells along fixed paths; no failures, no copies that keep growing.",
 [I+"soa_vector.hpp", I+"soa_grid.hpp", I+"detail/load_functor.hpp"],
 [("reserve() builds the new storage aside and swaps", I+"soa_vector.hpp"), ("capacity = constructed elements", I+"soa_vector.hpp")],
 ["values, size, capacity after each step", "simulated heap"])
prop("C07", "Fixed-capacity array histories match a bounded sequence",
 "Any history of operations on fixed-capacity arrays (create, fill, append, pop, clear, element access and iteration, copy, assign and load between arrays of equal and different capacity, swap) shows the same elements and size as an ordinary sequence limited to that capacity. Requests that exceed the capacity or pop from an empty array are refused with an error and change nothing, and elements are never written outside the array. An operation that fails because copying a member fails leaves the size unchanged and only the elements it was writing may differ.",
 ["histories", "inputs", "fault_sequences"], "all histories over arrays of several capacities, trivial and non-trivial members, failure of any member copy or allocation",
 "Tests cover each operation once with trivial members; copies between const arrays of same size, swaps of non-trivial members and failures are not covered.",
 [I+"soa_array.hpp", I+"macros.hpp", I+"detail/macros.hpp", I+"detail/soa_array_member_copy_helper.hpp"],
 [("capacity checks", I+"soa_array.hpp"), ("deep copies via copy_members", I+"detail/macros.hpp")],
 ["values and size after each step", "guard zones around each array"])
prop("C08", "Allocator hands out aligned, disjoint, fully usable memory and returns it",
 "For any power-of-two alignment, element type, request size and any address the underlying heap happens to return, the allocator's blocks are aligned, lie completely inside memory obtained from the heap, keep their content until released and never overlap each other or the bookkeeping. Each heap block is released exactly once with the size it was requested with, failing or unsatisfiable requests raise an error without side effects, and containers using it keep these guarantees across threads.",
 ["inputs", "histories", "fault_sequences", "schedules"], "all sequences and interleavings of allocate/deallocate over alignments, sizes and underlying addresses, with heap failures",
 "The tests allocate a few blocks from the real heap, which returns only a handful of address residues and never fails.",
 [I+"aligned_allocator.hpp", I+"alignment.hpp"],
 [("over-allocation with back reference", I+"aligned_allocator.hpp")],
 ["returned addresses", "content of blocks", "requests seen by the simulated heap"])
prop("C09", "Refused requests change nothing",
 "When a grid, vector or array refuses a request (dimensions beyond the supported sizes, wrong dimensionality, callback on two grids of different size, capacity exceeded, popping an empty array), it reports an error and every container involved keeps its dimensions, size and all of its content, and continues to work. No request within the supported sizes is refused, at any point of a history (only appending to a vector may ask for a fifth more room than it needs).",
 ["histories", "inputs"], "all interleavings of valid and invalid requests, all boundary sizes of all size tables",
 "Tests check that some invalid requests throw, but not the state afterwards nor that the container survives.",
 [I+"soa_grid.hpp", I+"api_traits.hpp", I+"macros.hpp", I+"soa_array.hpp", I+"soa_vector.hpp"],
 [("size selection throws out_of_range", I+"macros.hpp"), ("assert_same_grid_sizes", I+"soa_grid.hpp"), ("capacity checks", I+"soa_array.hpp")],
 ["exceptions", "content after the refusal", "simulated heap"])
prop("C10", "Regions shipped between nodes arrive intact",
 "Regions saved from a grid into a buffer (as a box or as any sequence of streaks) and loaded into another grid, possibly of different size and layout, on another node reproduce exactly the saved cells and nothing else. A domain-decomposed simulation which exchanges its halos this way over a network that delays, reorders, duplicates and retransmits messages, and which restarts crashed nodes from saved checkpoints, computes the same as one undivided grid.",
 ["schedules", "fault_sequences", "inputs"], "all streak sets, buffer sizes and offsets, node counts, message delivery orders, crash points",
 "Tests save and load one region in one process, immediately and in order, between grids of similar size.",
 [I+"soa_grid.hpp", I+"detail/save_functor.hpp", I+"detail/load_functor.hpp", I+"detail/simple_streak.hpp", I+"detail/macros.hpp", I+"detail/soa_array_member_copy_helper.hpp", I+"aggregated_member_size.hpp"],
 [("save/load functors with running offset and stride", I+"detail/save_functor.hpp")],
 ["content of the node's grids vs. the undivided reference", "bytes of the buffers"])
prop("C11", "Device-resident grids and arrays behave like host ones",
 "Grids whose storage and functors live on an accelerator (construct, set/get single cells and ranges, broadcast, save/load of runs and streaks, resize, swap, user kernels via callback, destroy) and device arrays (construct, copy, assign, load/save, resize, reserve, destroy) show the same values for every history of operations as their host counterparts, for any execution order of the device threads and whether launches run immediately or only when the host synchronises; so do soa_arrays used by kernels. Host code never touches device memory directly and vice versa, all accesses stay within the allocated blocks, no two device threads of a launch conflict, and failing or impossible device allocations are reported as exceptions and leave the containers usable with their old content, without leaks. (Copying/assigning device grids and device-resident soa_vectors are not supported by the library.)",
 ["schedules", "histories", "fault_sequences", "inputs"], "all device thread/block orders, histories, shapes, failures of device allocations",
 "The CUDA tests need a GPU and are not built here at all; on a GPU they see one thread order and no failures.",
 [I+"cuda_array.hpp", I+"cuda_allocator.hpp", I+"detail/staging_buffer.hpp", I+"detail/init_kernel.hpp", I+"detail/generate_cuda_launch_config.hpp", I+"detail/set_instance_functor.hpp", I+"detail/get_instance_functor.hpp", I+"detail/load_functor.hpp", I+"detail/save_functor.hpp", I+"detail/construct_functor.hpp", I+"detail/destroy_functor.hpp"],
 [("one kernel thread per cell with bounds check", I+"detail/"), ("staging buffers for host<->device transfers", I+"detail/staging_buffer.hpp")],
 ["values read back", "simulated device memory"])
prop("C12", "Benchmark reports survive whatever the environment returns",
 "Describing the CPU for a benchmark report always terminates with a usable text (non-empty, one line): the topology tool's type and name if it delivers both, else the model (first non-empty model name/cpu entry) from the system's CPU list, else a placeholder, for any content, truncation, short or interrupted read or failure of these sources (CPU list lines up to 4 KiB), and leaves no open files, pipes, child processes or memory behind; likewise for the GPU: its name, or a placeholder if the driver reports errors. Evaluating a benchmark runs it exactly once with the given dimensions if its family contains the requested name, else not at all, and prints exactly one line with revision, UTC time stamp read from the clock, host name (of any length), device, order, family, species, dimensions, result and unit, whatever the clock shows or jumps to; nothing is printed if output is off, if the benchmark was not selected, or if it fails (its exception reaches the caller).",
 ["fault_sequences", "inputs"], "all outputs/truncations/failures of the topology tool and the CPU list, host names, clock values and jumps, repeated calls",
 "The test-suite never runs the testbed; examples run it against one machine's environment.",
 [I+"testbed/cpu_benchmark.hpp", I+"testbed/evaluate.hpp", I+"testbed/benchmark.hpp"],
 [("fallback chain", I+"testbed/cpu_benchmark.hpp"), ("report line", I+"testbed/evaluate.hpp")],
 ["returned text", "printed lines", "open descriptors"])
prop("C13", "Results never depend on what the heap happened to contain",
 "Freshly created elements of grids, vectors and arrays hold their type's default value (zero for built-in types), and everything a program can observe through the containers depends only on its own operations, not on addresses returned by the heap, leftovers in recycled memory, or unrelated containers living nearby.",
 ["histories", "inputs", "fault_sequences"], "all histories, executed against different heap layouts and memory contents",
 "Tests run once, on fresh zero pages or whatever the heap recycles; wrong dependence on garbage stays invisible.",
 [I+"soa_grid.hpp", I+"detail/construct_functor.hpp", I+"detail/macros.hpp", I+"soa_array.hpp", I+"soa_vector.hpp"],
 [("value-initialisation of members", I+"detail/macros.hpp"), ("initialised book-keeping", I+"soa_grid.hpp")],
 ["observations of the same history under two heaps"])
prop("C20", "Arithmetic on packed values equals element-wise scalar arithmetic",
 "Every operation of the packed short-vector types (arithmetic, comparison, blend, sqrt, gather/scatter) equals the scalar operation applied to each lane, for all inputs and all instruction sets.",
 ["inputs", "configurations"], "all lane values, widths, element types and instruction sets",
 "Tests sample a few values per width.", [I+"short_vec.hpp", I+"detail/"], [("intrinsics wrappers", I+"detail/short_vec_*.hpp")], ["lane values"])
prop("C21", "The selected grid extent is the smallest registered size that fits",
 "For every requested dimension the compile-time extent chosen is the smallest one in the type's size table that is not below the request.",
 ["inputs", "configurations"], "all dimensions and size tables", "Tests check a few dimensions.", [I+"api_traits.hpp", I+"macros.hpp"], [("if-chain over sizes", I+"detail/macros.hpp")], ["extents"])
prop("C22", "Member offsets describe the real layout",
 "Member offsets, aggregated sizes and member counts reported for a registered type equal the positions at which the accessors store the members.",
 ["programs"], "all registered types", "Tests register a few types.", [I+"detail/offset.hpp", I+"member_ptr_to_offset.hpp", I+"aggregated_member_size.hpp", I+"number_of_members.hpp"], [("LIBFLATARRAY_DEFINE_FIELD_OFFSET", I+"detail/macros.hpp")], ["offsets"])
prop("C23", "Preprocessor list utilities implement their list semantics",
 "The sequence macros (size, element access, mapping, conditionals) compute what their names say for all sequences up to the supported length.",
 ["programs"], "all sequences", "Tests sample a few lengths.", [I+"preprocessor.hpp", I+"detail/preprocessor.hpp"], [("macro recursion", I+"detail/preprocessor.hpp")], ["expansion"])
prop("C24", "Vector width estimation picks a supported, sensible width",
 "For every accessor type and target arity the estimated short-vector type has the requested element type and an arity supported on the target.",
 ["programs"], "all accessors and arities", "Tests sample a few types.", [I+"estimate_optimum_short_vec_type.hpp", I+"ilp_to_arity.hpp"], [("compile-time selection", I+"estimate_optimum_short_vec_type.hpp")], ["type"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")

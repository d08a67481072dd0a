"""The property table.  `python3 spec.py` rewrites properties.jsonl and MANIFEST.json from it."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))


def P(id, title, statement, over, qtext, why, files, mech, check=None, technique=None, note=None, na=None, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, check=check, technique=technique, note=note, na=na, state=state or [], observe=observe or [])


PROPS = []

PROPS += [
P("C01", "Tensors have value semantics although copies share storage",
  "Modifying a tensor through any mutating operation never changes the observable contents of another tensor, including copies of it and tensors derived from it without copying data. Operations that take a tensor as read-only leave it unchanged.",
  ["programs", "histories"], "all programs that copy, rename, transpose, load and modify tensors in any order, for every scalar and symmetry type",
  "Copies share storage until one of them is written; the tests never compare a tensor before and after its copy is modified, and the number of alias histories is unbounded.",
  ["include/TAT/tensor.hpp", "include/TAT/core.hpp", "include/TAT/get_item.hpp", "include/TAT/scalar.hpp", "include/TAT/io.hpp", "include/TAT/edge_miscellaneous.hpp", "include/TAT/propagate_const.hpp"],
  [("every writer makes itself the only owner of the storage first", "tensor.hpp transform/set, scalar.hpp in-place operators, get_item.hpp block/at, io.hpp load"), ("storage reached through a const tensor is const", "propagate_const.hpp")],
  check="c01_cow.py", technique="interprocedural ownership dataflow over the clang CFG of instantiated templates",
  note="Sound for the analysed instantiations up to the assumptions in the evidence: every write-capable access to shared storage must be proved unique-owner on every path. References that block()/at() hand to the caller are out of scope after another copy is made."),
P("C02", "Binary dumps restore exactly what was written",
  "For every tensor, singular-value set, edge, name table and lattice object, reading the bytes produced by its binary writer restores every stored part and consumes exactly those bytes, whatever the object read into held before. Element counts and lengths of any size the object can have survive.",
  ["inputs", "configurations"], "all objects of every serialisable type, all scalar, symmetry and name types, any previous contents of the target",
  "The tests write and read back a handful of small tensors into fresh objects; the format is fixed by two functions per type that must agree for all contents.",
  ["include/TAT/io.hpp", "include/TAT/name.hpp", "include/square/abstract_lattice.hpp", "include/square/simple_update_lattice.hpp", "include/square/sampling_gradient_lattice.hpp", "include/square/exact_lattice.hpp"],
  [("matching operator< and operator> for each type", "include/TAT/io.hpp and the square lattice headers"), ("containers are emptied and counts are 64 bit", "include/TAT/io.hpp")],
  check="c02_wire.py", technique="wire-format automata built from writer and reader CFGs, compared for language equality",
  note="Decides agreement of the transferred field sequence, field types and loop counts of writer and reader, that all state is transferred and that containers are emptied first. Byte order and padding follow from both sides using the same object representation; stream failures are assumed absent."),
P("C13", "Headers work in programs of several translation units and configurations",
  "The public headers can be included in several translation units of one program and in every documented configuration: the program compiles, links, and all translation units share one copy of each registry.",
  ["configurations", "programs"], "all documented preprocessor configurations, any number of translation units",
  "Every test is a single translation unit built in one configuration.",
  ["include/TAT", "include/lazy.hpp", "include/square", "CMakeLists.txt"],
  [("definitions in headers are inline or templates, registries are inline variables", "include/TAT/*.hpp, include/square/*.hpp, include/lazy.hpp")],
  check="c13_headers.py", technique="linkage query over the AST of every header in every configuration, plus compile witnesses",
  note="Linkage of every namespace-scope definition is inspected; the configurations are parsed and semantically checked by clang (no MKL headers are installed, so TAT_USE_MKL_* is not parsed)."),
P("C19", "Results depend only on arguments, not on earlier calls",
  "No tensor operation keeps state between calls that can influence a later result: apart from the name registry, the random engine, the scratch allocator and the timers, library code modifies no object that outlives the call and no cache is keyed by the identity of an object that may be gone. Library operations do not write to standard output.",
  ["histories", "programs"], "all sequences of library calls in one process",
  "Each test runs its calls once in a fixed order; dependence on history needs particular sequences.",
  ["include/TAT", "include/square", "include/lazy.hpp"],
  [("no static locals or namespace-scope variables besides the registries", "include/TAT, include/square")],
  check="c19_state.py", technique="effect analysis: which functions modify objects with static storage",
  note="All objects with static storage and mutable members are enumerated from the AST; modification is decided by a write-capability analysis. State inside BLAS, LAPACK and MPI is trusted."),
P("C11", "Lazy values are never stale",
  "Reading a lazy node always gives the value of its function applied to the current values of its arguments: after any sequence of setting roots, taking and restoring snapshots and reading, no node returns a value computed from data that has been replaced. Nodes registered as dependents stay registered as long as they exist, and a snapshot restores every node it recorded.",
  ["histories", "programs"], "all dependency graphs and all sequences of set, unset, release, get, dump and load",
  "The tests build two small graphs and set a root once; staleness needs particular interleavings of reads, writes and restored snapshots.",
  ["include/lazy.hpp", "include/square/auxiliaries_system.hpp"],
  [("setting or restoring a node unsets everything downstream", "lazy.hpp node::set, node::load, unset"), ("a node registers with each argument", "lazy.hpp Node/Path")],
  check="c11_lazy.py", technique="dependence and typestate analysis of the lazy graph over the clang CFG",
  note="Each rule is a path property of the graph primitives (invalidate before replace, propagate to every live dependent, register with every argument); the induction over histories is by argument in DESIGN.md, not mechanised."),
P("C21", "Cached environments of the Python square lattice are never stale",
  "After a site tensor of the square auxiliaries system is set or deleted, no query uses an environment that was computed, directly or through other environments, from the replaced tensor: every query equals that of a freshly built system with the present sites, for every lattice size and every order of changes and queries. Copies of a system or of a sampling lattice are independent of the original.",
  ["histories", "inputs"], "all lattice sizes, all sequences of site changes, copies and queries",
  "The tests build a lattice once and query it; a stale entry needs a query, then a change at a particular side, then another query.",
  ["square/auxiliaries.py", "square/sampling_gradient_lattice.py"],
  [("replacing a site deletes the dependent entries of each kind", "square/auxiliaries.py __delitem__, _refresh_line"), ("entries are computed from neighbouring entries and sites", "square/auxiliaries.py _get_auxiliaries")],
  check="c21_cache.py", technique="abstract interpretation of cache dependences and invalidation over the Python syntax tree",
  note="Rows and columns are tracked relative to the changed site, so the verdict covers every lattice size. Tensors modified in place by the user and the merging operator += are outside."),
P("C25", "Symmetry labels form a group and blocks conserve it",
  "For every symmetry type the label operations obey the laws of the group (associative addition with the default label neutral, negation the inverse, parity additive, comparison a total order consistent with equality), and operations create exactly the blocks whose labels sum to the neutral label; expand and shrink account for the labels they fix.",
  ["inputs", "configurations"], "all labels of every symmetry type, all edges",
  "Tests use a few small labels; laws quantify over all triples of labels and all edge contents.",
  ["include/TAT/symmetry.hpp", "include/TAT/core.hpp", "include/TAT/edge.hpp", "include/TAT/shrink_and_expand.hpp"],
  [("operators of the symmetry structs", "include/TAT/symmetry.hpp"), ("block enumeration keeps only balanced label tuples", "include/TAT/edge.hpp initialize_block_symmetries_with_check")],
  check="c25_symmetry.py", technique="algebraic abstract interpretation (linear forms and GF(2) polynomials) of the label operations",
  note="Label arithmetic is evaluated exactly in an algebraic domain on every path; integer overflow of labels is outside."),
P("C12", "Collective communication matches on all processes",
  "For every number of processes and every root, broadcast returns the root's value on each process and reduce combines each process's value exactly once at the root; every send has exactly one matching receive with the same peer, tag and length, so no process waits forever. Collective operations are reached by all processes alike, and in the parallel simple update each term is broadcast by the process that computed it, with everything that process changed.",
  ["schedules", "configurations"], "all process counts, roots and ranks",
  "The tests run one process, where broadcast and reduce return before any communication.",
  ["include/TAT/mpi.hpp", "include/square/simple_update_lattice.hpp", "include/square/basic.hpp"],
  [("binary tree of distances from the root", "include/TAT/mpi.hpp broadcast, reduce"), ("owner of a term is index % size", "include/square/simple_update_lattice.hpp _single_group_simple_update")],
  check="c12_mpi.py", technique="path-wise linear-form analysis of the communication trees; rank-dependence (taint) analysis of collective calls",
  note="Covers every size, root and rank because ranks stay symbolic. A tree rewritten with loops is reported as not decided and not alarmed; contents of messages rest on C02."),
P("C06", "Scratch memory of an operation never outlives it",
  "No object that an operation returns, stores in a tensor or keeps between calls refers to memory of a scratch arena that has been released; containers that live on hold their own storage. Every scratch scope restores the memory resource that was installed before it, also when an exception leaves the operation, and the arena only hands out aligned, disjoint ranges inside its buffers.",
  ["programs", "inputs", "fault_sequences"], "all operations, all requests of any size and alignment, all nestings of scratch scopes, all exits including exceptions",
  "Memory of a dead arena usually still holds the right bytes, so tests pass; a request that straddles a buffer end or an exception in the middle of an operation is not exercised.",
  ["include/TAT/pmr_resource.hpp", "include/TAT/edge.hpp", "include/TAT/edge_operator.hpp", "include/TAT/core.hpp", "include/TAT/contract.hpp", "include/TAT/svd.hpp", "include/TAT/qr.hpp", "include/TAT/trace.hpp"],
  [("scope object installs and restores the default resource", "include/TAT/pmr_resource.hpp scope_resource"), ("bump allocation with alignment and overflow buffers", "include/TAT/pmr_resource.hpp monotonic_buffer_resource"), ("scratch containers have types of their own", "include/TAT/pmr_resource.hpp pmr namespace")],
  check="c06_scratch.py", technique="lifetime analysis of scratch arenas over the clang CFG",
  note="Types decide which objects may hold arena memory; each flow of such an object into a longer-lived place must copy. The arena arithmetic is decided by linear inequalities on each path."),
P("C05", "Matrix kernels are called with shapes that fit their buffers",
  "Whatever the dimensions of the edges, every BLAS and LAPACK call made by contract, svd, qr and exponential gets dimensions, leading dimensions, strides, transposition flags and workspaces that agree with each other and with the buffers it is given: nothing is read or written outside them and no operand is overwritten while it is in use. The routine matches the scalar type, the status it returns is examined, and every element of a result is written, also when a contracted dimension is empty.",
  ["inputs", "configurations"], "all block dimensions including 0 and 1, all edge orders, fused and unfused contractions, all four scalar types",
  "The tests contract and decompose a few shapes in double precision; a wrong leading dimension, stride or workspace agrees with the right one for square matrices or small blocks, and short work arrays rarely crash.",
  ["include/TAT/contract.hpp", "include/TAT/svd.hpp", "include/TAT/qr.hpp", "include/TAT/exponential.hpp", "include/TAT/transpose.hpp"],
  [("arguments of gemm and its batched forms", "include/TAT/contract.hpp"), ("kernels choose a transposed variant by shape and stride", "include/TAT/svd.hpp, include/TAT/qr.hpp"), ("scaling and squaring with alternating buffers", "include/TAT/exponential.hpp matrix_exponential")],
  check="c05_lapack.py", technique="symbolic shape analysis: polynomial abstract evaluation of every routine's arguments over the CFG, all branch cases",
  note="Dimensions stay symbolic, so the verdict covers every shape. Numerical accuracy of the routines is outside; batched MKL calls are not compiled here."),
P("C14", "The Python module forwards each method to the C++ operation of its name",
  "Every method, attribute and operator of the Python module reaches the C++ operation or member of its name on its own object; each argument ends in the parameter of the same meaning and none is ignored, omitted arguments mean what they mean in C++; several results come in the order of the C++ result; methods that change a tensor change the tensor itself and return it; the names of tensor types stand for the scalar and the symmetry they say, also when converting; all arithmetic operators exist in all operand orders; and a block seen as an array has the dimensions and strides of its edges in the requested order.",
  ["inputs", "programs"], "all scalar and symmetry types, all methods and all arguments", "Tests call part of the methods for some types, mostly with few arguments; a crossed or ignored argument, another default or a copy instead of the tensor itself is seen only with the particular call.",
  ["PyTAT/PyTAT.cpp"],
  [("declare_tensor, declare_edge, declare_symmetry, random and mpi registrations", "PyTAT/PyTAT.cpp")],
  check="c14_python.py", technique="argument-flow and effect analysis of every registration in the instantiated syntax tree of the module, compared with the signatures and defaults of the C++ operations",
  note="Every registration of every instantiation is judged; what pybind11 converts is outside. A body that is not understood is counted as not decided rather than alarmed."),
P("C15", "Sizes, dimensions and offsets are 64-bit throughout",
  "Tensors of any size that fits in memory are handled exactly: no dimension, element count, offset or message length is held, multiplied, accumulated or counted in a type narrower than 64 bits. Only the number of edges of a tensor and single matrix dimensions handed to BLAS and LAPACK may be narrower.",
  ["inputs"], "all tensors, in particular blocks of 2^16, 2^31 and 2^32 elements and more",
  "Tests use tensors of a few dozen elements; a counter or offset that is too narrow only fails beyond 65535 or 2^31 elements.",
  ["include/TAT/basic_type.hpp", "include/TAT/core.hpp", "include/TAT/edge_operator.hpp", "include/TAT/transpose.hpp", "include/TAT/contract.hpp", "include/TAT/get_item.hpp", "include/TAT/scalar.hpp", "include/TAT/mpi.hpp"],
  [("Size is 64 bit, Rank is for edges only", "include/TAT/basic_type.hpp"), ("offsets and total sizes", "include/TAT/edge_operator.hpp, include/TAT/get_item.hpp, include/TAT/shrink_and_expand.hpp")],
  check="c15_width.py", technique="type-based width analysis of every conversion, accumulation and loop bound in the AST",
  note="Every integer conversion of the instantiated code is classified. Assumes fewer than 65536 edges and single matrix dimensions below 2^31. Known finding: MPI messages of 2 GiB or more."),
P("C20", "Edge names and their texts correspond one to one",
  "Two edge names are equal exactly when their texts are equal, and a name always gives back the text it was created from, for every order in which names are created and after a stored table of names is loaded. The comparison operators of names agree with each other as one total order. The reserved names that one operation gives to edges of an intermediate tensor differ from each other and are not ordinary texts.",
  ["histories", "inputs"], "all sequences of creating names and of storing and loading the table of names",
  "Tests create a few dozen names once; a number that is out of step with its text needs a particular sequence of creating and loading, and a wrong ordering operator is used only through containers.",
  ["include/TAT/name.hpp", "include/TAT/io.hpp"],
  [("registry of texts and numbers", "include/TAT/name.hpp fast_name_dataset, FastName"), ("loading a stored table", "include/TAT/io.hpp operator>(istream, fast_name_dataset_t)"), ("reserved names", "include/TAT/name.hpp InternalName")],
  check="c20_names.py", technique="abstract interpretation of the name registry (counter, table, list) on every path that creates or loads names",
  note="Inductive: each path that creates a name must preserve the bijection between list and table. Fewer than 2^31 names and a single thread are assumed."),
P("C16", "Names, name index and edges of a tensor always agree",
  "Every tensor that an operation returns or modifies has exactly one name per edge, no name twice, and a name index that gives each name the position of its own edge, whatever names and maps the caller passes; requests that would break this are rejected. Operations that collect edges of their operands keep each edge with its own name.",
  ["programs", "inputs", "histories"], "all tensors and all operations that create, rename, merge, split, transpose, contract or load tensors, with any names",
  "Tests use distinct names in a fixed order; a stale index or a duplicate name shows only when tensors are reused, loaded over one another or given clashing names.",
  ["include/TAT/tensor.hpp", "include/TAT/name.hpp", "include/TAT/edge_operator.hpp", "include/TAT/edge_miscellaneous.hpp", "include/TAT/io.hpp", "include/TAT/contract.hpp"],
  [("names, name_to_index and core of a tensor", "include/TAT/tensor.hpp"), ("index from names; validity of names", "include/TAT/name.hpp construct_name_to_index, check_valid_name"), ("writers of names", "edge_operator.hpp, edge_miscellaneous.hpp edge_rename, io.hpp meta_get and operator>>")],
  check="c16_labels.py", technique="disjunctive typestate analysis of names, index and edges of each tensor over the CFG, with inlining",
  note="Every exit path of every function that writes these parts is judged; an index or a validity test written out by hand is counted as not decided rather than alarmed."),
P("C08", "Requests that do not fit a tensor are rejected before memory is touched",
  "A request that names an edge, sector, block or element that a tensor does not have, or that combines edges of different dimensions (contraction, trace, exponential, multiplication by singular values, element-wise arithmetic of two tensors), ends with an error, or ignores the missing name where that is documented: a failed lookup is never used as if it had succeeded, no offset of an element is computed from an index that is not below the dimension of its edge, and no block is used that a tensor may not have.",
  ["inputs"], "all tensors and all arguments of the operations, in particular wrong names, sectors, indices and dimensions",
  "Tests pass arguments that fit; the rejection paths are never run, and what happens without them depends on memory contents.",
  ["include/TAT/get_item.hpp", "include/TAT/shrink_and_expand.hpp", "include/TAT/contract.hpp", "include/TAT/trace.hpp", "include/TAT/exponential.hpp", "include/TAT/tensor_miscellaneous.hpp", "include/TAT/scalar.hpp", "include/TAT/edge_operator.hpp", "include/TAT/edge_miscellaneous.hpp"],
  [("lookups by name, sector and position", "get_item.hpp, edge_operator.hpp, edge_miscellaneous.hpp, tensor_miscellaneous.hpp multiple and identity"), ("comparison of dimensions", "contract.hpp, trace.hpp, exponential.hpp, tensor_miscellaneous.hpp multiple, scalar.hpp"), ("offset of an element", "get_item.hpp, shrink_and_expand.hpp")],
  check="c08_reject.py", technique="path-sensitive dataflow of lookup results and dominance of range and dimension comparisons over offsets and products",
  note="Every lookup, offset and combining operation of the instantiated code is judged on all paths. at() of standard containers is trusted to reject. Edge lists given to split_edge are the caller's duty by its documentation. A comparison made through a construct that is not understood is counted as not decided."),
P("C17", "Element-wise operations compute every element by their own rule",
  "Addition, subtraction, multiplication and division between tensors and numbers in either order, their in-place forms on tensors and on singular values, map, transform, conversion between scalar types and the norms treat every element of every block, and each by the operation they are named after: on the elements of the operands at the same position and in the order of the operands, with edges given in another order matched by name, a block that only one operand has counting as zero, and the number operand keeping its value throughout even if it is an element of the tensor.",
  ["inputs"], "all tensors, sector structures, edge orders, scalar types and numbers", "Tests add and scale a few small tensors whose blocks and edges agree; another operand order, sectors only one operand has, odd norms or aliased numbers are not sampled.",
  ["include/TAT/scalar.hpp", "include/TAT/tensor.hpp"],
  [("operator + - * / and their in-place forms", "include/TAT/scalar.hpp"), ("map, transform, to, norm", "include/TAT/tensor.hpp")],
  check="c17_elementwise.py", technique="symbolic evaluation of the element formulas to rational normal forms and loop coverage over the CFG of every element-wise operation",
  note="Every store of every instantiated operation is judged; rounding is outside. A formula or loop that is not understood is counted as not decided rather than alarmed."),
]

NA = [
P("C03", "The text form of tensors can be read back",
  "Reading the text that a tensor, edge or symmetry prints restores the same names, edges and elements up to the printed precision, with and without colour codes.",
  ["inputs"], "all tensors and all stream states", "Tests read back a handful of texts.",
  ["include/TAT/io.hpp"], [("operator<< and operator>>", "include/TAT/io.hpp")],
  na="what the reader accepts is decided by character values met at run time (delimiters, escape sequences, number formatting of iostreams and locale); writer and reader are not written field by field as in the binary form, so no static argument in reach relates the two languages. Defects found by reading were repaired (known_findings.json)."),
P("C04", "Contraction, trace and edge operations compute the defined sums",
  "For every pair of tensors the contraction over given edges is the sum over the common indices of products of elements, and splitting, merging and transposing only move elements.",
  ["inputs"], "all shapes, sector structures and contraction lists", "Tests compare a few shapes with known numbers.",
  ["include/TAT/contract.hpp", "include/TAT/edge_operator.hpp", "include/TAT/transpose.hpp", "include/TAT/trace.hpp"], [("matrix product of merged tensors", "include/TAT/contract.hpp"), ("transpose plan", "include/TAT/edge_operator.hpp, transpose.hpp")],
  na="the place an element is moved to is a nonlinear function of run-time dimensions, sectors and permutations computed in several loops; deciding it needs an index-arithmetic proof or execution. The parts with a static argument (shapes of matrix products C05, labels C16, rejection C08, group laws C25) are claimed separately."),
P("C07", "Arrows of merged, split and reversed edges are consistent",
  "The arrow of every edge of a result is determined by the arrows of the operands, whatever operation produced it.",
  ["inputs"], "all fermionic tensors and edge operations", "Tests use few arrow combinations.",
  ["include/TAT/edge_operator.hpp", "include/TAT/contract.hpp"], [("reverse and merge steps", "include/TAT/edge_operator.hpp")],
  na="which arrow is right depends on which names the caller lists for reversing and merging at run time, through sets looked up by name; there is no code-independent static specification of the flow. One uninitialised arrow found by reading was repaired."),
P("C09", "Decompositions multiply back to the tensor",
  "The product of the factors of svd and qr is the tensor up to rounding, the factors are isometries, and a cut keeps the largest singular values.",
  ["inputs"], "all tensors and cuts", "Tests check a few random tensors.",
  ["include/TAT/svd.hpp", "include/TAT/qr.hpp"], [("LAPACK calls on merged blocks", "include/TAT/svd.hpp, qr.hpp"), ("choice of remaining singular values", "include/TAT/svd.hpp")],
  na="numerical statement about floating-point results of LAPACK and about comparisons of run-time values; only the shapes and workspace of the calls have a static argument (C05). Two defects found by reading were repaired."),
P("C10", "Fermionic signs make results independent of the order of edges",
  "Transposing, merging, splitting and reversing fermionic edges multiplies each block by the sign of the permutation of odd sectors, so that the value of a network does not depend on the order of operations.",
  ["inputs", "programs"], "all sector structures and edge operations", "Tests contract a few networks.",
  ["include/TAT/edge_operator.hpp", "include/TAT/contract.hpp", "include/TAT/trace.hpp"], [("parity flags of the four steps", "include/TAT/edge_operator.hpp")],
  na="the sign is the parity of a run-time permutation weighted by run-time sectors, and its correctness is a global identity over whole networks; the laws of the sectors it is built from are claimed in C25."),
P("C18", "Sampling is unbiased",
  "Markov sampling on the square lattice visits configurations with the probability of the state, and energies and gradients are its expectation values.",
  ["inputs", "histories"], "all lattices and states", "Tests run short chains and compare with loose bounds.",
  ["include/square/sampling_gradient_lattice.hpp", "square/sampling_gradient_lattice.py"], [("Markov step", "include/square/sampling_gradient_lattice.hpp")],
  na="a statement about probabilities of run-time random numbers; no static argument in reach decides it."),
]
PROPS += NA


def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            m["checks"].append({
                "property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 checks/" + p["check"], "thorough_cmd": "VERIF_TIER=thorough python3 checks/" + p["check"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other", "level_note": p["note"],
            })
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()

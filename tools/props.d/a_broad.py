prop("C01", "Results do not depend on memory layout, axis placement or overlap",
     "For every public ufunc and gufunc and every numeric or object loop it has, the values of the result do not depend on how the operands and results lie in memory: contiguous, strided, reversed, broadcast with stride zero, Fortran-ordered, misaligned, byte-swapped, a structured-array field or read-only operands, core dimensions selected with axis/axes/keepdims, and an `out` array that is fresh, strided or overlaps an input all give the same numbers. "
     "No input is modified unless it is also the output, and nothing outside the elements of the output is written. "
     "(sosfilter_ic_contig is only promised for C-contiguous core dimensions, and floating-point results may differ by rounding.)",
     ["inputs", "configurations"],
     "all assignments of 11 memory layouts to the operands and 7 to the outputs, all positions of the core axes, exact and one-element-shifted overlaps, for every type loop of every function, core sizes 0-5 and a menu up to 129",
     "The tests call nearly every function on fresh contiguous arrays of one or two sizes; strides, overlap and foreign byte order are exercised for a handful of functions only.",
     ["src/util/strided.hpp", "src/*/", "tools/cxxgen", "ufunclab/_wrapped.py"],
     [("strided get/set helpers", "src/util/strided.hpp"), ("generated outer loops", "_build_utils"),
      ("contiguous fast paths", "src/vnorm, src/sosfilter, src/mad")],
     "exhaustive enumeration of layout assignments on the real extension modules, differential oracle",
     "exploration",
     "Every assignment of the layout menu within the listed sizes and data patterns was run against the built modules; the reference is the same function on each slice alone in fresh contiguous memory. Trusts NumPy's own buffering.")

prop("C02", "A batch is computed slice by slice, and operands broadcast",
     "Applying a function to operands with batch dimensions gives, in every slice, what the function gives for that slice alone (up to rounding for floating-point arithmetic), for all combinations of batch shapes that broadcast, including empty ones, and every batch length; the result has the broadcast shape. "
     "For plain ufuncs, `where` writes exactly the selected elements, and reduce, accumulate and outer of the binary ufuncs with one type (hyperbolic_ramp and its like) are the folds of the ufunc itself.",
     ["inputs", "configurations"],
     "every function and type loop; 9 broadcast shapes up to 3 dimensions incl. empty ones x all assignments of broadcastable shapes to the operands (all pairs for 3+ operands); all batch lengths 1-33 and a menu to 16385 (NumPy's buffer size is 8192), each operand in turn broadcast, both byte orders; each special value in one slice of five (the others are unaffected); all 32 `where` masks of 5 elements; folds of 1-9 elements",
     "The tests call most functions on one slice, or on one batch whose operands have the same shape.",
     ["_build_utils", "src/util/strided.hpp", "src/*/"],
     [("generated outer loops", "_build_utils"), ("hand-written loops", "src/*/*.c.src")],
     "exhaustive enumeration of batch-shape assignments and batch lengths on the real extension modules, differential oracle",
     "exploration",
     "Every assignment within the listed shapes; the reference is the same function on each slice alone.")

prop("C07", "Public names mean the same in whatever order they are used first",
     "In a fresh process, every name of ufunclab.__all__, erfcx and the members of the normal and semivar submodules can be used first, and then any other, and each time they are the same object, a ufunc carrying that name where it is a ufunc, and the object that `from ufunclab import name` and `from ufunclab import *` give; using one name never changes what another one is; a function that is pickled, or copied, is the same object when it comes back, also in a process that has not used it. "
     "dir(ufunclab) lists the public names, an unknown name raises AttributeError naming it, and the constants of ufunclab.op mean the comparisons and kinds they are named after.",
     ["histories"],
     "all ordered pairs of public names (thorough: with a third), each in a process of its own; the states are the sets of loaded extension modules",
     "The extension modules are loaded lazily on first use; a test process uses them in one order, and import order effects vanish after the first use.",
     ["ufunclab/__init__.py", "ufunclab/normal", "ufunclab/semivar", "src/meson.build"],
     [("lazy loading", "ufunclab/__init__.py: __getattr__")],
     "explicit-state exploration of the orders of first use, run on the real package in forked processes",
     "model_checking",
     "Every ordered pair; a forked process that has imported numpy only stands for a fresh interpreter.",
     state=[("loaded modules", "the set of ufunclab extension modules imported so far", "sys.modules")])

prop("C04", "Python errors inside object loops surface, and no reference leaks",
     "When Python code called from an object loop (a comparison, its truth value, or arithmetic of the elements) raises, at whatever call and in whatever slice of a batch, the function stops calling into Python and raises exactly that exception; every element keeps its reference count, an output array given with out= holds only live objects, and the next call works. "
     "Any number of successful or failing calls of any function leaves the reference counts of operands, outputs and data types, and the memory in use, unchanged.",
     ["crash points", "inputs", "histories"],
     "15 functions with object loops: every word of 1-3 elements (thorough 1-4) over 3 values, pairs of slices and batches of 3; an exception at each single callback of each call, in the operation or in the truth value of its result, with fresh and with given outputs; all loops of all functions called 60-200 times in 5 ways",
     "The tests use elements that never fail; a missing error check or Py_DECREF is invisible in a result.",
     ["tools/cxxgen/gufuncgen.py", "src/minmax", "src/first", "src/ordered", "src/searchsorted", "src/cross", "src/peaktopeak", "src/all_same"],
     [("object loops", "src/*/*_gufunc.h: ..._core_object"), ("generated batch loops", "tools/cxxgen/gufuncgen.py")],
     "exhaustive fault injection at every callback of the object loops, run on the real extension modules; reference counts as monitor",
     "fault_enumeration",
     "Every callback of every listed input is made to fail once in each way. Memory growth is judged over three bursts of calls, so a leak that happens only now and then is not seen.")

prop("C06", "The result of a call does not depend on earlier calls",
     "Every function is a pure function of its arguments: a call gives bit for bit the result, or the exception, that it gives as the first call of a fresh process, whatever functions were called before it, with whatever types, sizes, invalid arguments, nan or inf. "
     "This includes repeated calls, calls after a failure, the wrappers bincount, one_hot, convert_to_base and nextn_*, and the functions made by gendot.",
     ["histories"],
     "all ordered pairs of calls within each extension module (every loop of every function: small, batch, long, empty, nan and inf data), all triples for each function, pairs across modules, and repetitions",
     "A test checks one call at a time; static buffers, cached state, uninitialised memory and stale floating-point flags show only in particular sequences of calls.",
     ["src/*/", "tools/cxxgen", "ufunclab/_wrapped.py"],
     [("extension modules", "src/*/"), ("wrappers", "ufunclab/_wrapped.py"), ("generated functions", "src/gendot")],
     "explicit-state exploration of histories of calls on the real modules, differential oracle from fresh processes",
     "model_checking",
     "All histories of length two within a module and three within a function over the listed calls; state that needs a longer history to build up is reached only along the path on which the pairs are made.",
     state=[("history", "the calls made before in the process", "process memory of the extension modules")])

prop("C03", "Only the elements of operands are read and only those of outputs written",
     "No call of any public function reads or writes memory that is not an element of its operands or outputs: not before or after them, not in the gaps between strided elements or between the rows of a batch, and not beyond its own temporaries, for all core sizes including empty ones, all batches, and all values including nan, infinities, extremes and invalid parameters (operation codes, kinds, indices, bases, counts). "
     "No such call divides an integer by zero, dereferences a null pointer, uses freed memory or ends the process.",
     ["inputs", "configurations"],
     "every numeric and object loop of every function: core dimensions 0-5 (two dimensions: 0-3; thorough to 9) and some to 33, batches of 0, 1, 3, contiguous rows, strided and reversed operands and outputs all alike and one at a time, 9 data sets and each special value in each single operand; gendot of all pairs of 29 ufuncs and types; the wrappers",
     "An out-of-bounds read usually returns a plausible value and an overflow lands in slack memory: a test that compares results sees neither.",
     ["src/util/strided.hpp", "src/*/", "tools/cxxgen", "src/gendot/gendotmodule.c"],
     [("strided access", "src/util/strided.hpp"), ("hand-written loops", "src/*/*.c.src"), ("temporaries", "src/gendot, src/backlash, src/convert_to_base")],
     "exhaustive enumeration of placements in poisoned memory, run on the real sources built with AddressSanitizer",
     "exploration",
     "Every listed placement ran with all other bytes poisoned at byte granularity. Trusts the sanitizer; the modules are built with -O1 and its flags for this check.")

prop("C05", "Calls in several threads at once give the results of separate calls",
     "NumPy runs the loops of a ufunc without the GIL, so calls of any functions of this package can run at the same time in several threads on separate operands; every interleaving gives each thread the result it gets alone. "
     "The same holds for the wrappers (bincount, one_hot, convert_to_base, nextn_*), for gendot and the functions it makes, and for names that two threads use for the first time.",
     ["schedules"],
     "every numeric loop of every function with itself (other data, other sizes) and with the other functions of its module, one thread preempted by the other at each of its memory accesses; where two loops touch a common byte and one writes it, also all pairs of preemptions at such accesses; two threads in the Python code, the first stopped at each of its lines",
     "Tests are single-threaded; a static buffer or cache is invisible unless one call is interrupted at the wrong moment by another.",
     ["src/*/", "tools/cxxgen", "src/gendot/gendotmodule.c", "ufunclab/__init__.py", "ufunclab/_wrapped.py"],
     [("inner loops", "src/*/"), ("lazy loading", "ufunclab/__init__.py")],
     "stateless model checking of the real loops under a controlled scheduler, preemption-bounded, with a conflict analysis of the accesses",
     "model_checking",
     "All schedules with one preemption within the listed sizes, and two where memory is shared; two threads; sequential consistency. Where the recorded accesses of two loops do not conflict every other interleaving is equivalent to one of these.",
     state=[("shared memory", "static data and caches of the modules", "memory accesses of the instrumented loops")])

prop("C08", "Operands of all types go to the right loop, without loss",
     "A call computes in the first of the function's loops, which are listed from narrow to wide, to which all operands convert safely (object loops only if an operand is an object array): bool, int8 and float16 use float32 where there are only floating-point loops, int32 and int64 float64, an integer is never squeezed into a narrower type, and the result is bit for bit, and in type, that of the operands converted first. "
     "Where no loop fits (strings, dates, complex numbers for a real function) it raises TypeError; signature=, casting= and the type of out= are obeyed as in NumPy, a refused `out` keeps its contents, and Python numbers take the type of the arrays they are used with. "
     "The loops that each function has are those of the current tree (mc/loops.json); none of them goes away.",
     ["inputs", "configurations"],
     "every function x all pairs (up to two operands: all; three: all triples; more: pairs in every two places) of 33 types incl. bool, half, long double, complex, object, bytes, str, dates, void and foreign byte order; every loop x 33 types of out x 5 casting rules; every loop as signature; every scalar operand as a Python number",
     "The tests use few types and mostly the same for all operands; the order of the loops in a table decides silently how an operand is rounded.",
     ["src/*/", "tools/cxxgen", "_build_utils", "ufunclab/_wrapped.py"],
     [("tables of loops", "src/*/*_ufunc.c, generated *_gufunc modules"), ("conversion in the wrappers", "ufunclab/_wrapped.py")],
     "exhaustive enumeration of operand types on the real modules against a model of the choice of the loop",
     "exploration",
     "Every listed combination, on one or two data sets; the model takes the safe-casting table from NumPy.")

prop("C09", "Arrays of more than 2**31 elements or bytes are handled",
     "Core dimensions, batches and strides may exceed 2**31 (and 2**32): counts, positions, offsets and indices are kept in 64 bits, so that an element behind position 2**31 decides the result, is written, or is reported at its true index like any other. "
     "The same holds for elements that lie more than 2**31 bytes apart in either direction, and for the indices, bins and lengths given to searchsorted, tri_area_indexed, bincount, one_hot and linear_interp1d.",
     ["inputs", "configurations"],
     "every numeric loop x each axis of each operand (and all) with elements 2**31+64 or 2**32+64 bytes apart, forwards or backwards; every gufunc with a core dimension of 2**31+2**18 whose decisive elements are the last 2**18; every function with a batch of 2**31+2**18 rows (quick: one loop of each, the cheap ones; thorough: all loops)",
     "No test has an array of 2 GB; an int instead of npy_intp is invisible below.",
     ["src/util/strided.hpp", "src/*/", "tools/cxxgen", "src/gendot/gendotmodule.c"],
     [("strided access", "src/util/strided.hpp"), ("generated outer loops", "tools/cxxgen/gufuncgen.py"), ("hand-written loops", "src/*/*.c.src")],
     "exhaustive enumeration of oversized dimensions, axes and strides on the real modules (memory mapped repeatedly), closed-form and small-call oracles",
     "exploration",
     "Every listed place of a big dimension or stride. The long arrays repeat one piece of 2**18 elements except at the end. mad, rmad, gini and multivariate_logbeta only in the thorough tier; object loops not at all.")

prop("C45", "Shapes are accepted and produced as the signatures say",
     "A call with operands of any shapes (and `out`, axis, axes or keepdims) returns results of exactly the shape that NumPy's rules give for the function's core signature (core dimensions last, never stretched, equal where they have the same name, fixed where they are numbers; batch dimensions broadcast), and otherwise raises ValueError (AxisError for an axis out of range, TypeError for a wrong number of operands) and leaves a given `out` alone. "
     "argmin and its relatives, mad, rmad, gini, meanvar, rms, wjaccard, peaktopeak and the means need at least one element and pearson_corr two; no other function refuses an empty core dimension. "
     "The wrappers bincount, convert_to_base, one_hot, nextn_less and nextn_greater put the new dimension where `axis` says, for every shape, size and axis, and accept an `out` of just that shape.",
     ["inputs", "configurations"],
     "each function: all shapes of each operand (17 batch shapes up to 3 dimensions incl. empty ones x core sizes 0-3, too few dimensions), all pairs of these for each pair of operands, triples of a smaller menu, all shapes of each output, all axes from -5 to 4 with and without keepdims; each wrapper: 17 shapes (pairs where there are two arrays) x axes x sizes x nine shapes of out, with the values checked",
     "The tests try one or two shapes of each function that fit; they check few of the refusals, and the axis arithmetic of the wrappers for a few axes.",
     ["src/*/define_cxx_gufunc_extmod.py", "tools/cxxgen", "src/corr/corr_gufunc.h", "ufunclab/_wrapped.py"],
     [("core signatures", "src/*/define_cxx_gufunc_extmod.py"), ("process_core_dims", "src/corr/corr_gufunc.h"), ("axis of the wrappers", "ufunclab/_wrapped.py")],
     "exhaustive enumeration of shape assignments on the real extension modules against a model of the shape rules",
     "exploration",
     "Every assignment of the menus; the model transcribes NumPy's rules, the signatures are pinned in mc/shapes.json.")

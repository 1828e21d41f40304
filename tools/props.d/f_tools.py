seqprop("C46", "The code generators build the ufuncs their definition files describe",
        "For any module definition in the form of UFuncExtMod (the classes of ufunc_config_types.py, as the define_*_extmod.py files of the package use them), generate_gufunc.py and generate_ufuncs.py write C++ that compiles to a module with exactly the functions named there, each with the given docstring, signature (or number of inputs), and one loop per type signature in order. "
        "Every loop calls the given core function once per element of the batch, with the sizes of the symbolic core dimensions in order of first appearance and for each operand its pointer and its core strides, so that the result is the core function's for every layout and batch; nonzero_coredims refuses empty dimensions with ValueError, process_core_dims_func is called, extra_module_funcs are present. "
        "The modules of the package have the functions, signatures and loops of their definition files.",
        "gufuncs: all signatures of one and two inputs and one output over 10 operand shapes (scalars, repeated, fixed and up to three symbolic dimensions), a choice of those with three to five inputs and two or three outputs; several core functions and type patterns per function, sizes 0-3, batches, layouts; plain ufuncs of one to five inputs; object loops; wrong definitions; every definition file of the package",
        "The generators run at build time and are only tested through the dozen shapes the package happens to use.",
        ["tools/cxxgen", "src/*/define_cxx_gufunc_extmod.py"],
        [("generator for gufuncs", "tools/cxxgen/generate_gufunc.py"), ("generator for ufuncs", "tools/cxxgen/generate_ufuncs.py"), ("definition types", "tools/cxxgen/ufunc_config_types.py")],
        "The generated modules are compiled, imported and called on every signature of the listed family; the core functions are written by the check against the generator's own prototypes.")

seqprop("C47", "The template processor expands repeat blocks as documented",
        "For every template, tools/conv_template.py replaces each `/**begin repeatN ... */ ... /**end repeatN**/` block by one copy of its body per value of its variables, in order, nested blocks innermost last, with every @name@ replaced by the value of that iteration; values are the comma-separated entries of `#name = ...#` (over continuation lines, with `x*3` and `(a, b)*2` standing for repetitions), and `:exclude:` drops exactly the combinations it names. "
        "Text outside of blocks is kept, lists of different lengths, blocks without variables and undefined names raise ValueError that names the line on which the body of the block begins, as does the #line directive before every copy, and the command writes NAME for NAME.src into the given directory.",
        "all templates of 13 block structures (up to three levels, siblings, text between) x all assignments of 12 value notations to the blocks, one to three variables each; all sets of one or two exclusions; wrong lengths, missing variables and names in every block; the command",
        "The tool is used at build time on three templates; the tests never look at it.",
        ["tools/conv_template.py"], [("parse_loop_header, parse_string", "tools/conv_template.py")],
        "Every template of the family; the oracle expands the tree the template was written from. The header and blank lines are not compared.")

seqprop("C48", "The generated wrappers mean what the ufuncs they wrap mean",
        "tools/uwrap/uwrap.py writes an importable module with one wrapper for every ufunc of ufunclab, whose parameters are the names on the first line of the function's docstring (which has the form `name(a, b, /, ...)` with one name per operand), those with a default keyword-only; a call with any operands by position or keyword, defaults left out or given, and any of out, where, order, casting, subok, dtype, signature, keepdims returns what the ufunc returns for these. "
        "For all_same, gmean, hmean, mad, peaktopeak and rmad, `axis` may be None or a tuple as well, and means the set of all elements along these axes. "
        "uwrap() refuses with ValueError a parameter list of the wrong length, a name that is a parameter of ufuncs, and a name without default after one with a default.",
        "every function x every split into positional and keyword operands, both orders of keywords, every subset of the defaults, every `where` mask of 4 elements, every option; every tuple of axes (all permutations, negative axes) of shapes to four dimensions; all lists of up to four parameters over names, defaults and reserved names, calls recorded",
        "The tests of tools/uwrap need a file that is not generated in the test run and call four of the wrappers.",
        ["tools/uwrap/uwrap.py", "src/*/"], [("uwrap, get_def_and_call_sig, check_params", "tools/uwrap/uwrap.py"), ("_process_axis_for_set_reduction_func", "tools/uwrap/uwrap.py: wrapper_preamble"), ("docstrings", "src/*/")],
        "Every call of the family, differential: the wrapper against the ufunc. Wrappers of set reductions are called with arrays, and without keepdims where axis is None.")

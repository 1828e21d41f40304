EXH = "exhaustive enumeration of all small inputs of the real functions against a reference model"


def seqprop(id, title, statement, text, why, files, mechanism, note, over=("inputs",), technique=EXH, level="exploration", **kw):
    prop(id, title, statement, list(over), text, why, files, mechanism, technique, level, note, **kw)


seqprop("C10", "first and argfirst find the first element that satisfies the comparison",
        "For every sequence, comparison operation, target and data type, argfirst returns the smallest index whose element satisfies `element op target` and -1 if there is none, and first returns that element, bit for bit, or the given default. "
        "Comparisons with nan follow Python (only != holds), for object arrays the result is the very element of the array, and an operation code that is none of the six comparisons matches nothing.",
        "all sequences up to length 4 (thorough 5) over a five-letter alphabet and length 3 over neighbours that only the full width of the type tells apart, for every numeric type, every operation code class, every target; every position of the match for all lengths 0-40 and a menu of lengths to 70001, three layouts; objects up to length 3",
        "The tests use a few arrays per operation, mostly int and float64; positions, nan, unmatched cases and the other loops are sampled.",
        ["src/first", "ufunclab/__init__.py"], [("first_core / argfirst_core", "src/first/first_gufunc.h"), ("op codes", "ufunclab.op")],
        "Every sequence over the alphabet within the bounds; the functions only compare, so the alphabet stands for the type's values.")

seqprop("C11", "argmin, argmax, minmax and their relatives agree with the definition",
        "For every non-empty sequence without nan and every data type, argmin/argmax return the first index of the smallest/largest element, and minmax, argminmax, min_argmin and max_argmax return exactly the values and the first indices that go with them. "
        "An empty core dimension raises ValueError.",
        "all sequences up to length 6 (thorough 7) over a six-letter alphabet containing the type's extremes, and length 4 over neighbours that only the full width of the type tells apart; every position of the extreme, with and without ties, for all lengths 1-40 and a menu of lengths to 70001; three layouts; objects",
        "The tests compare a few arrays per function; ties, extremes of each integer type and lengths above 10 are not covered.",
        ["src/minmax"], [("minmax_core and friends", "src/minmax/minmax_gufunc.h")],
        "Every sequence over the alphabet within the bounds; selection only, exact comparison.")

seqprop("C12", "searchsortedl and searchsortedr return the leftmost and rightmost insertion point",
        "For every sorted array and value (no nan), searchsortedl returns the number of elements less than the value and searchsortedr the number of elements less than or equal to it, for every numeric and object loop, length (including 0) and layout. "
        "If the array and the value have different numeric types they are compared in their common type, as numpy.searchsorted does.",
        "all sorted sequences up to length 6 (thorough 7) over each type's alphabet and length 3 over neighbours that only the full width of the type tells apart; every insertion point for all lengths to 120 (thorough 200), with runs of equal values; all pairs of numeric types",
        "The tests check a handful of arrays and types; off-by-one errors in the bisection depend on the length and position.",
        ["src/searchsorted"], [("binary search", "src/searchsorted/searchsorted_gufunc.c.src"), ("type resolver", "src/searchsorted/searchsorted_gufunc.c.src")],
        "Every sorted sequence over the alphabet within the bounds; exact comparison.")

seqprop("C13", "ordered and all_same decide exactly the property they name",
        "ordered(x, op) is true exactly if `x[i] op x[i+1]` holds for every pair of consecutive elements (a pair with nan satisfies only !=), and all_same(x) exactly if every element equals the first; both are true for sequences of length 0 and 1. "
        "This holds for every data type including objects and for every layout; an operation code that is no comparison raises an exception for object arrays.",
        "all sequences up to length 6 (thorough 7) over a five-letter alphabet with nan and length 4 over neighbours that only the full width of the type tells apart, all operations; every position of a single disorder for all lengths 2-40 and a menu of lengths to 70001; objects to length 5",
        "The tests check a few arrays; a violation at one position of one length is a different input for each of them.",
        ["src/ordered", "src/all_same"], [("ordered_core", "src/ordered/ordered_gufunc.h"), ("all_same_core", "src/all_same/all_same_gufunc.h")],
        "Every sequence over the alphabet within the bounds.")

seqprop("C14", "peaktopeak is the exact difference of the extremes",
        "For every non-empty sequence without nan, peaktopeak returns max(x) - min(x) exactly; for signed integers the result has the unsigned type of the same size, so that no input overflows. "
        "An empty sequence raises ValueError; objects are subtracted with Python's arithmetic.",
        "all sequences up to length 6 (thorough 7) over an alphabet with the type's extremes and length 4 over neighbours that only the full width of the type tells apart; all pairs of 8-bit integers; every position of an extreme for all lengths to 40 and a menu of lengths to 70001",
        "The tests check a few arrays per type; the extremes of each integer width are where an unsafe subtraction goes wrong.",
        ["src/peaktopeak"], [("peaktopeak_core", "src/peaktopeak/peaktopeak_gufunc.c.src")],
        "Every sequence over the alphabet within the bounds; exact comparison.")

seqprop("C15", "kbnsum is a compensated sum",
        "For every sequence of finite values whose partial sums do not overflow, the error of kbnsum is at most eps*|sum| + 2 n^2 eps^2 sum|x|, i.e. it does not lose the small terms among large ones that cancel, for float, double and long double. "
        "With infinities or nan the result is what ordinary addition gives: nan if nan or both infinities occur, else the infinity; the empty sum is 0.",
        "all sequences up to length 5 (thorough 6) over alphabets of values spread over the exponent range and length 4 over full-mantissa values, the same at the smallest and largest scales of the type, compared with the exact rational sum; every position of a special value for all lengths to 40 and a menu of lengths to 70001; several layouts",
        "The tests check a few sums; the compensation matters only for particular orders of magnitudes.",
        ["src/kbnsum"], [("kbnsum_core", "src/kbnsum/kbnsum_gufunc.h")],
        "Every sequence over the alphabet within the bounds against exact rational arithmetic.")

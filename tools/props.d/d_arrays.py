seqprop("C29", "cross2 and cross3 are the cross products",
        "For all vectors, cross3(u, v) = (u1*v2-u2*v1, u2*v0-u0*v2, u0*v1-u1*v0) and cross2(u, v) = u0*v1-u1*v0, exactly where the arithmetic is exact (integers that do not overflow the loop's type, dyadic floats, Python objects), and with the loop's IEEE arithmetic for special values. "
        "A core dimension other than 3 (2) raises ValueError.",
        "all pairs of vectors over 4-6 values (small, extreme, special, and with full mantissas) for ten types, and objects; four layouts, operands and out in different layouts; all core dimensions 0-5",
        "The tests check a few vectors; a swapped index or sign shows only for some components.",
        ["src/cross"], [("cross3_core_calc, cross2_core_calc, det2", "src/cross/cross_gufunc.h")],
        "Every pair over the alphabet; exact comparison.")

seqprop("C30", "tri_area and tri_area_indexed compute the area of the triangle",
        "For any three points in n dimensions, tri_area returns the area of the triangle with an error of at most C*eps*a**4 in its square (a the longest side), never negative, and never nan for finite input, including degenerate triangles. "
        "tri_area_indexed selects the points with three indices, negative ones counting from the end, and returns nan if one is out of range.",
        "all triples of points on small integer grids in 1-4 dimensions, and with full mantissas at several scales; needle-shaped right triangles of every aspect ratio to 2**18, nearly degenerate ones, every scale of the type; all index triples in and around the range for 0-5 points; each coordinate alone in dimensions to 129 (257); f, d, g; four layouts",
        "The tests check a few triangles; degenerate ones and out-of-range indices are not covered.",
        ["src/tri_area"], [("tri_area_common_calc, get_index", "src/tri_area/tri_area_gufunc.h")],
        "Every triple over the grids against the exact (integer) Gram determinant.")

seqprop("C31", "linear_interp1d is piecewise linear interpolation without extrapolation",
        "For strictly increasing xp, linear_interp1d(x, xp, fp) is exactly fp[k] at x = xp[k], the linear interpolant (to rounding) between two nodes, and nan for x outside [xp[0], xp[-1]], for nan and for an empty table. "
        "The result is the same whether x, xp or fp are broadcast or given in full.",
        "all sets of up to 5 (thorough 6) of 7 nodes with all values over a small alphabet, and values with full mantissas, x at, beside and between all nodes and outside; every interval of tables of length to 70001; seven broadcasting patterns in three layouts",
        "The tests check one or two tables; the bisection and the broadcast fast path depend on the length and the position.",
        ["src/linear_interp1d"], [("search, linear_interp1d loops", "src/linear_interp1d/linear_interp1d_gufunc.c.src")],
        "Every table over the alphabet within the bounds.")

seqprop("C32", "bincount counts, weighs and accumulates",
        "bincount(x, m, weights, out=, axis=) adds to out[k] (zeros if out is not given) the number of elements equal to k, or the sum of their weights, for 0 <= k < m, ignores all other values, and returns out (of the type of the weights if not given); m defaults to max(max(x)+1, 0). "
        "A history of calls with the same out accumulates, for any signed, float or complex type, byte order, alignment or layout of out and also if out overlaps x or weights; a non-integer x, a negative or non-integer m or a wrong out.shape raises ValueError and leaves out alone.",
        "all sequences up to length 3 (thorough 4) over each integer type's alphabet incl. extremes, six m; all weights (also tiny and huge) for 8x12 type pairs; all histories of up to 4 (thorough 5) calls replayed on the state graph; every overlap offset; all axes of 8 shapes; weighted out of every layout; lengths to 4099 and more",
        "The tests check a few arrays; accumulation, overlap, extremes of each type and strided loops are sampled.",
        ["src/bincount", "ufunclab/_wrapped.py"], [("bincount cores", "src/bincount/bincount_gufunc.h"), ("wrapper, _accumulate", "ufunclab/_wrapped.py")],
        "Every sequence, and every history within the bounds, against an explicit-state model of the accumulator.",
        over=["inputs", "histories"], technique="explicit-state model of the accumulator, every history replayed on the real function", level="model_checking",
        state=[("out", "the counts so far", "ufunclab/_wrapped.py")])

seqprop("C33", "convert_to_base returns the digits",
        "convert_to_base(k, base, ndigits) returns the ndigits lowest digits d of k, lowest first, so that sum(d[i]*base**i) = k (modulo base**ndigits if k does not fit), for every integer type and including negative k or base with truncating division; base 0 and -1 give zeros. "
        "k and base broadcast, axis places the digits, out is filled and returned, and a non-integer or negative ndigits, a bad axis or a wrong out.shape raises an exception.",
        "all k in +-130 (thorough 1100) and bases in -17..37 with 0-8 digits; all pairs of 8-bit values; the extremes of every type with up to 66 digits; all axes of 8 broadcast shapes",
        "The tests check a few values.",
        ["src/convert_to_base", "ufunclab/_wrapped.py"], [("convert_to_base_core_calc", "src/convert_to_base/convert_to_base_gufunc.h"), ("wrapper", "ufunclab/_wrapped.py")],
        "Every k and base within the bounds against Python's integers.")

seqprop("C34", "one_hot marks exactly the index",
        "one_hot(k, n) has the value 1 at index k and 0 everywhere else, and is all zero if k is negative or at least n, for every integer type of k, which is also the type of the result. "
        "axis places the new dimension, out (of any numeric type) is filled and returned, and non-integer arguments, a negative n, a bad axis or a wrong out.shape raise an exception.",
        "every k in -2..n+2 and the type's extremes for every n up to 70 (thorough 139) and a menu to 1000, for eight types and eleven out types, four layouts; all axes of 7 shapes",
        "The tests check a few values; positions, types and the strided path are sampled.",
        ["src/one_hot", "ufunclab/_wrapped.py"], [("one_hot_core_calc", "src/one_hot/one_hot_gufunc.h"), ("wrapper", "ufunclab/_wrapped.py")],
        "Every k and n within the bounds; exact comparison.")

seqprop("C35", "next_less, next_greater, nextn_less and nextn_greater walk the number line",
        "next_greater(x) and next_less(x) are the adjacent floating point numbers of the type (float, double, long double), through the subnormals, zero and up to the infinities, where they stay; nan gives nan. "
        "nextn_greater(x, n) and nextn_less(x, n) are the next n numbers of that walk in order, placed along axis; a type other than the three, a non-integer or negative n, a bad axis or a wrong out.shape raises an exception.",
        "the successor graph of float32: every 8191st number and the neighbourhoods of all ends (thorough: all 2**32); double and long double at every corner of the exponent range; walks of up to 12 (thorough 40) steps from each; all axes",
        "The tests check a few numbers.",
        ["src/next", "src/nextn", "ufunclab/_wrapped.py"], [("next_greater, next_less", "src/next/next.h"), ("nextn cores", "src/nextn/nextn_gufunc.h")],
        "Every transition of the successor graph in the listed part, against the integer representation of the numbers.",
        over=["inputs", "histories"], technique="explicit-state exploration of the successor graph, every transition replayed on the real functions", level="model_checking")

seqprop("C36", "gendot is the left fold of sumfunc over prodfunc",
        "For element-wise ufuncs prodfunc and sumfunc, gendot(prodfunc, sumfunc)(x, y) is sumfunc folded from the left over prodfunc(x, y), for every pair of type loops that match; a gufunc sumfunc (n)->() is applied to prodfunc(x, y). "
        "The empty sequence gives sumfunc's identity, or ValueError if there is none; the loops, name and signature of the result are the documented ones, unsuitable arguments raise ValueError, and generated functions stay valid and independent of each other, also after the ufuncs they were made from have been deleted.",
        "all 37x37 pairs of NumPy's binary ufuncs and 8x7 with gufuncs, every matching numeric loop, all pairs of sequences up to length 3 over three letters, lengths to 4099 (10007 with gufuncs) and more, layouts and broadcasting; every order of creating four functions and deleting two, and of deleting functions made at run time and their gendot",
        "The tests check three or four compositions.",
        ["src/gendot", "ufunclab/_gendot_wrap.py"], [("reduce, gendot_loop", "src/gendot/gendotmodule.c"), ("gendot", "ufunclab/_gendot_wrap.py")],
        "Every pair of ufuncs and loop within the bounds against the explicit fold.", over=["inputs", "configurations"])

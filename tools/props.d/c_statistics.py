seqprop("C16", "The means are the power means, with defined special values",
        "For nonnegative values and positive weights, pmean/pmeanw are the (weighted) power mean of order p to rounding error for every p, including p=0 (geometric), the orders around the switch to the small-|p| expansion, and p=+-inf (max, min); gmean/gmeanw and hmean/hmeanw are the orders 0 and -1. "
        "A zero makes the mean 0 for p<=0, an infinity makes it inf for p>=0, both at p=0 give nan, a nan anywhere or a negative value gives nan (power and geometric means), equal values give that value; an empty sequence raises ValueError.",
        "all sequences up to length 3 (multisets to 4, thorough 5) over ten values incl. 0, inf, nan, negatives, for 24 orders and f, d, g; weighted: all sequences over seven values x all weight vectors over three weights; values near both ends of the exponent range and clusters of neighbouring numbers x every order; special values at the ends and the middle of lengths 1-40 and a menu of lengths to 70001",
        "The tests check a few means with benign values; orders near 0, zeros, infinities and their combination with weights are not covered.",
        ["src/means"], [("mean loops", "src/means/means_gufunc.c.src")],
        "Every sequence over the alphabet within the bounds against 60-digit arithmetic with a conditioning-aware tolerance.")

seqprop("C17", "meanvar returns the mean and the variance with the given ddof",
        "For every non-empty sequence and ddof, meanvar returns the mean and sum((x-mean)**2)/(n-ddof) with the accuracy of compensated sums: an error of a few eps (times at most log n) relative to var + max|x|*std, also for integers at the extremes of their type and for a large common offset. "
        "A single element has mean x and variance 0 (nan for ddof=1), nan and inf propagate to both results, and an empty sequence raises ValueError.",
        "all sequences up to length 6 (thorough 7) over alphabets with small, large-offset and extreme values for every integer and float type, and over values with full mantissas at several scales, five ddof; lengths 1-40 and a menu of lengths to 70001 with special values at many positions",
        "The tests check a few arrays; the naive formulas differ only for offsets and extremes that they do not use.",
        ["src/meanvar"], [("meanvar_core", "src/meanvar/meanvar_gufunc.h")],
        "Every sequence over the alphabet within the bounds against exact integer arithmetic.")

seqprop("C18", "mad, rmad and gini are the normalised mean absolute difference",
        "For every non-empty sequence of finite values, mad(x, unbiased) is the sum of |x_i - x_j| over all ordered pairs divided by n**2 (biased) or n*(n-1) (unbiased), rmad is mad/mean(x) and gini is rmad/2. "
        "If the mean is 0 the relative measures are nan for all-equal values and inf otherwise; an empty sequence raises ValueError.",
        "all sequences up to length 6 (thorough 7) over six values, positive or of mixed sign, up to length 4 over values with full mantissas; increasing, decreasing, constant and irregular sequences of lengths 1-40 and a menu of lengths to 70001 with special positions; large offsets",
        "The tests check a few sequences; ties, order of the data and lengths are sampled.",
        ["src/mad"], [("mad_core, rmad_core, gini_core", "src/mad/mad_gufunc.h")],
        "Every sequence over the alphabet within the bounds against the defining double sum in exact integers.")

seqprop("C19", "vnorm, rms and vdot are the textbook reductions, without spurious overflow",
        "vnorm(x, p) is (sum |x_i|**p)**(1/p) (max |x_i| for p=inf) to rounding error for real and complex x and p>0, without overflow or underflow when the result is representable; nan gives nan, else an infinite element gives inf, the empty vector has norm 0 and an order <= 0 gives nan. "
        "rms is the root of the mean of |x_i|**2 and vdot is the sum of products, exact for exactly representable sums.",
        "all vectors up to length 4 (thorough 5) over seven values incl. 0, inf, nan, and over values near the ends of the exponent range, vectors to length 3 over magnitudes of every ratio with full mantissas and at every scale, eleven orders, f d g F D G; special positions at lengths 1-40 and a menu of lengths to 70001; three layouts",
        "The tests check a few vectors; scaling, special values and the complex loops are sampled.",
        ["src/vnorm"], [("vnorm_core, rms_core, vdot_core", "src/vnorm/vnorm_gufunc.h")],
        "Every vector over the alphabet within the bounds against long double / multiprecision references.")

seqprop("C20", "percentileofscore counts exactly",
        "For every non-empty sequence and every score that is not nan, percentileofscore returns the exact percentage for each kind: strict = 100*#{x<s}/n, weak = 100*#{x<=s}/n, mean = their average, rank = the average percentage rank of the elements equal to the score (#{x<s} if there is none); a nan element is none of these but counts in n. "
        "An invalid kind gives nan.",
        "all sequences up to length 5 (thorough 6) over each type's alphabet (length 4 over neighbours that only the full width of the type tells apart, and nan) x every score x every kind; all numbers of smaller and equal elements for lengths 1-40 and a menu of lengths to 70001; ten types, all layouts",
        "The tests check one example per kind.",
        ["src/percentileofscore"], [("percentileofscore_core", "src/percentileofscore/percentileofscore_gufunc.h")],
        "Every sequence over the alphabet within the bounds; exact rational reference, tolerance 4 ulp.")

seqprop("C21", "pearson_corr is Pearson's correlation coefficient",
        "For all pairs of equally long sequences of length at least 2, pearson_corr is cov(x,y)/(std(x)*std(y)) to rounding error for every integer and float type, including data whose squares overflow or underflow the type; for length 2 it is exactly 1 or -1. "
        "If a sequence is constant or not finite the result is nan; lengths 0 and 1 raise ValueError.",
        "all pairs of sequences up to length 4 (thorough 5) over five values, pairs of type extremes up to length 3, data scaled to both ends of the exponent range, nearly constant data, constants of every kind, special positions and constants at lengths to 70001",
        "The tests check a few pairs with values near 1.",
        ["src/corr"], [("pearson_corr_core", "src/corr/corr_gufunc.h")],
        "Every pair of sequences over the alphabet within the bounds against exact integer covariances.")

seqprop("C22", "wjaccard is the weighted Jaccard index",
        "For all pairs of equally long sequences wjaccard(x, y) is sum(min(x_i,y_i))/sum(max(x_i,y_i)) to rounding error, also when the integer sums would overflow the type. "
        "A nan in either sequence gives nan, two all-zero sequences give nan, an empty core dimension raises ValueError.",
        "all pairs of sequences up to length 3 (thorough 4) over each type's alphabet incl. extremes, and over values with full mantissas from subnormal to huge; special positions at lengths to 70001; ten types, all layouts",
        "The tests check a few pairs.",
        ["src/wjaccard"], [("wjaccard_core", "src/wjaccard/wjaccard_gufunc.h")],
        "Every pair of sequences over the alphabet within the bounds.")

seqprop("C23", "fillnan1d interpolates exactly the nans",
        "fillnan1d returns every non-nan element unchanged, replaces each inner run of nans by linear interpolation between its two neighbours, and the nans before the first or after the last other element by that element; if every element is nan the result is all nan. "
        "This holds for every pattern of nans, length, type and layout (finite data).",
        "every nan mask for lengths up to 10 (thorough 13); all sequences up to length 6 over nan, ordinary, huge and infinite values, over values with full mantissas, at the smallest and largest scales and almost equal ones; every gap position for lengths to 40 and a menu of lengths to 70001",
        "The tests check a few masks.",
        ["src/fillnan1d"], [("fillnan1d_core", "src/fillnan1d/fillnan1d_gufunc.h")],
        "Every mask within the bounds; values outside gaps bit for bit.")

MCX = "explicit-state model of the operator, every path replayed on the real functions"
seqprop("C24", "backlash and backlash_sum follow the play operator",
        "backlash(x, deadband, initial) is the play operator: the output starts at initial and moves only when the input leaves the band of half-width deadband/2 around it, in which case it stays exactly deadband/2 away (never for a nan); the output at every step depends only on the previous output and the current input. "
        "backlash_sum returns the sum of the weighted operators and their final states, so that feeding the final states to the next chunk continues the sequence.",
        "the reachable state graph of each operator (5 deadbands, 7 inputs, 3 initial states); every input path up to length 5 (thorough 6) from the initial states and of length 3 from every reachable state; f, d, g; all layouts; sums of up to 3 operators; all weights incl. zero; full-mantissa values at every scale, inputs next to the edges of the band; every sequence with infinities and nan; long paths to 70001 steps",
        "The tests check one or two sequences; the operator is a state machine whose errors depend on the path.",
        ["src/backlash"], [("backlash_core, backlash_sum_core", "src/backlash/backlash_gufunc.h")],
        "Every path within the bounds in an exact (dyadic) model; each is replayed on the implementation.",
        over=["histories"], technique=MCX, level="model_checking",
        state=[("y", "the current output of the play operator", "src/backlash/backlash_gufunc.h")])

seqprop("C25", "hysteresis_relay is the two-state relay",
        "hysteresis_relay outputs init until the input is first below low_threshold or above high_threshold, then low_value after an input strictly below low_threshold and high_value after one strictly above high_threshold, keeping the last output in between (also for inputs equal to a threshold and for nan).",
        "the reachable state graph for four configurations x an alphabet below, at, between, at and above the thresholds, infinite and nan; every path up to length 5 (thorough 6), from every state; f, d, g; all layouts; full-mantissa, huge, tiny and infinite thresholds and values; long paths to 70001 steps",
        "The tests check one or two sequences.",
        ["src/hysteresis_relay"], [("hysteresis_relay_core", "src/hysteresis_relay/hysteresis_relay_gufunc.h")],
        "Every path within the bounds; each is replayed on the implementation.",
        over=["histories"], technique=MCX, level="model_checking",
        state=[("current_value", "the relay's current output", "src/hysteresis_relay/hysteresis_relay_gufunc.h")])

seqprop("C26", "softmax is the normalised exponential, without overflow",
        "For every vector, softmax(x) is exp(x_i)/sum(exp(x_j)) to rounding error for finite values of any magnitude; -inf gives 0, a single +inf takes everything, and nan anywhere, several +inf or all -inf give nan. "
        "The empty vector gives an empty result.",
        "all vectors up to length 4 (thorough 5) over values incl. infinities, nan and the largest finite numbers, and over values with full mantissas; special positions at lengths 1-40 and a menu of lengths to 70001; f, d, g; all layouts",
        "The tests check a few vectors.",
        ["src/softmax"], [("softmax_core", "src/softmax/softmax_gufunc.h")],
        "Every vector over the alphabet within the bounds against extended precision.")

seqprop("C27", "unwrap returns the continuous representative",
        "For a positive period p and finite x, every element of unwrap(x, p) differs from x by a whole number of periods, the first element is x[0], and consecutive elements differ by at most p/2. "
        "From the first non-finite element on (after x[0]) the result is nan.",
        "all sequences up to length 5 (thorough 6) over seven values x five periods, and over values and periods with full mantissas; every step size in +-250 periods of 1/8; steps of 2**31 to 2**40 periods; special positions at lengths to 70001; f, d, g; all layouts",
        "The tests check a few sequences.",
        ["src/unwrap"], [("unwrap_core", "src/unwrap/unwrap_gufunc.h")],
        "Every sequence over the (dyadic) alphabet within the bounds; exact congruence and step conditions.")

seqprop("C28", "sosfilter is the cascade of second-order sections and carries its state",
        "sosfilter(sos, x) is the cascade of direct form II transposed sections (b0,b1,b2,1,a1,a2) applied from zero state; sosfilter_ic and sosfilter_ic_contig start from zi and also return the final state, so that filtering a signal in chunks, passing the state along, equals filtering it at once. "
        "With no sections the output is the input.",
        "all cascades of up to 2 sections over six coefficient sets (thorough 3); the reachable state graph and every input path up to length 4-5 over three inputs from zero and non-zero states; every split into chunks; impulses at every position for lengths to 70001; full-mantissa coefficients and signals at every scale against exact rational arithmetic; f, d, g",
        "The tests compare with a few scipy results; the state update of each section matters only along particular paths.",
        ["src/sosfilter"], [("sosfilter cores", "src/sosfilter/sosfilter_gufunc.h")],
        "Every path within the bounds in an exact (dyadic) model; each is replayed on the implementation.",
        over=["histories"], technique=MCX, level="model_checking",
        state=[("z0, z1 of each section", "the delay registers", "src/sosfilter/sosfilter_gufunc.h")])

seqprop("C37", "Piecewise functions: exact pieces, exact boundaries",
        "step, linearstep, smoothstep3, smoothstep5, trapezoid_pulse, deadzone and the semivar functions return exactly the documented constant on each constant piece and at each boundary, for every order of the arguments (nan for a > b, or breakpoints out of order), and the documented line or polynomial to rounding error in between. "
        "invsmoothstep3 inverts smoothstep3 to rounding error: a at y = fa, b at y = fb, nan outside the range or if fa = fb.",
        "x at every boundary, at its two floating-point neighbours, at seven points in each piece and outside incl. infinities, for 10 intervals x 8 pairs of levels (step, deadzone: all tuples over an alphabet with subnormals, extremes and infinities); 19 pulses x 6 amplitudes; 96 semivariograms; f, d, g; arrays and scalars in every argument position at lengths to 4099 and more",
        "The tests sample a few points per function; mistakes at one boundary or for degenerate intervals are not visited.",
        ["src/step", "src/trapezoid_pulse", "src/deadzone", "src/semivar"], [("step functions", "src/step/step.h"), ("trapezoid_pulse", "src/trapezoid_pulse/trapezoid_pulse.h"), ("semivar_*", "src/semivar/semivar.h")],
        "Every combination of the listed boundaries, neighbours and parameters; constants compared exactly.")

seqprop("C38", "nan_to_num, issnan, abs_squared, abssq and hypot3 treat every kind of number correctly",
        "nan_to_num replaces exactly the nans and returns every other number bit for bit; issnan is true exactly for signaling nans; abs_squared and abssq are x*x, or re*re + im*im to rounding error, for every stride. "
        "hypot3 is the length of (x, y, z) to rounding error without spurious over- or underflow, inf if any argument is infinite, otherwise nan if any is nan.",
        "issnan: all 2**16 half numbers, all patterns of one or two mantissa bits at the corner exponents in float and double (thorough: all 2**32 floats); all pairs / triples over 23 values incl. extremes, subnormals, nan, inf; a special value at every position of lengths to 4099 and more for every combination of input and output strides",
        "The tests check a few values.",
        ["src/nan_to_num", "src/issnan", "src/abs_squared", "src/abssq", "src/hypot3"], [("abssq loops", "src/abssq/abssq_ufunc.cpp"), ("issnan", "src/issnan/issnan_ufunc.c.src"), ("hypot3", "src/hypot3/hypot3.h")],
        "Every bit pattern and tuple within the bounds.")

seqprop("C39", "The logistic functions, swish and the smooth ramps are accurate over the whole range",
        "logistic, logistic_deriv and log_logistic have a relative error of a few eps for every finite x, also far out in the tails where naive formulas lose everything; so have swish(x, beta) and exponential_ramp(x, a), hyperbolic_ramp(x, a) for a > 0 up to the rounding of beta*x or x/a. "
        "The limits at +-inf are exact, nan propagates, a = 0 gives max(x, 0) and a < 0 gives nan.",
        "several numbers in every binade of the exponent range and dense grids on [-60, 60], seven values of beta and a each, and parameters of any magnitude over the whole range of x, f, d, g, against 60-digit arithmetic; all special values",
        "The tests compare a handful of values, mostly in double; a loss of accuracy in one region or one type is not seen.",
        ["src/logistic", "src/ramp"], [("logistic, log_logistic", "src/logistic/logistic.h"), ("std_hyperbolic_ramp, std_exponential_ramp", "src/ramp/ramp.h")],
        "Every argument of the grids; tolerance 8 eps plus the conditioning.")

seqprop("C40", "yeo_johnson, inv_yeo_johnson and pow1pm1 are accurate and inverse to each other",
        "yeo_johnson(x, lmbda) and inv_yeo_johnson are the documented transformation and its inverse in all four branches and at their limits (lmbda = 0, lmbda = 2, x = 0), to rounding error times the conditioning; the inverse gives nan outside the range of the transformation and an infinity at its end. "
        "pow1pm1(x, y) is (1+x)**y - 1 to the same accuracy for x > -1, without cancellation for small x, and 0, -1 or inf at x = -1; nan propagates.",
        "17 exponents incl. 0, 2, values next to them and large ones, several x in every binade, dense grids, the neighbourhood of each pole and of lmbda = 0 and 2 at every distance; f, d, g, against 60-digit arithmetic; round trips; special values",
        "The tests check a few pairs; the branches differ by the signs of x, lmbda and 2 - lmbda.",
        ["src/yeo_johnson", "src/pow1pm1"], [("yeo_johnson, inv_yeo_johnson", "src/yeo_johnson/yeo_johnson.h"), ("pow1pm1", "src/pow1pm1/pow1pm1.h")],
        "Every pair of the grids.")

seqprop("C41", "The special functions are accurate on their whole domain",
        "logfactorial(k) is log(k!) to 4 ulp for every k >= 0 (nan for k < 0) in both integer loops; debye1, expint1, logexpint1 (long double: to double precision) and loggamma1p have errors of a few dozen eps, relative except near the zeros of the two logarithms, over their whole domain, with the exact limits at 0 and infinity and nan outside. "
        "multivariate_logbeta(x) is sum(loggamma(x)) - loggamma(sum(x)) to rounding error for every sequence and layout (0 for one element, nan for none or if any is nan), and each element of an array is computed independently of its position.",
        "k = 0..3000 (20000) and around every power of 2 and 10; several numbers in every binade, dense grids, and the neighbours of every breakpoint of the piecewise approximations (81 pieces of debye1); all sequences up to length 4 over seven (nine) values and up to length 3 over magnitudes from 1e-12 to 1e25, longer ones to 129 (257); against 60-digit arithmetic",
        "The tests compare a few values per function; a wrong coefficient in one of the pieces, or a wrong limit between them, is not seen.",
        ["src/logfactorial", "src/loggamma1p", "src/debye1", "src/expint1", "src/multivariate_logbeta"], [("debye1 pieces", "src/debye1/debye1_generated.c"), ("table and Stirling series", "src/logfactorial/logfactorial.c"), ("Lanczos and Pade", "src/loggamma1p/loggamma1p.c"), ("series, continued fraction, asymptotics", "src/expint1/expint1.h")],
        "Every argument of the grids.")

seqprop("C42", "normal.cdf, sf, logcdf, logsf and erfcx are accurate in both tails",
        "For every finite x, normal.cdf and normal.sf have a relative error of a few eps times 1 + x**2 (the conditioning of the tail), erfcx(x) = exp(x**2)*erfc(x) has one of a few eps (times 1 + x**2 for x < 0), and normal.logcdf and normal.logsf a relative error of a few eps in the tail where the probability vanishes and of the same order as the probability in the other. "
        "sf(x) = cdf(-x) and logsf(x) = logcdf(-x); the values at 0, +-inf and nan are exact.",
        "several numbers in every binade, dense grids on [-45, 45], the neighbourhood of the switching points and of the ends of the 100 pieces of erfcx, f, d, g, against 60-digit arithmetic and the asymptotic series beyond -300",
        "The tests compare a few values; one wrong Chebyshev coefficient of erfcx spoils one interval of one type.",
        ["src/normal"], [("normal_logcdf", "src/normal/normal.h"), ("erfcx", "src/normal/erfcx_funcs.cxx")],
        "Every argument of the grids.")

seqprop("C43", "Complex log1p keeps its precision near zero and near the unit circle around -1",
        "For every finite complex z whose modulus does not over- or underflow, both parts of log1p_doubledouble(z) are accurate to a few eps, the real part also near zero and near the circle |1+z| = 1 where it vanishes by cancellation (elsewhere up to an absolute error of a few eps); log1p_theorem4(z) is accurate to a few eps of the modulus of the result or min(1, |re z| + |im z|). "
        "A nan in either part gives nan in both, z = 0 gives 0, infinite arguments of log1p_doubledouble give inf and the angle, and conjugate arguments (also by the sign of a zero) conjugate results.",
        "all pairs of parts over a grid in every fifth (second) binade and on [-3, 2]; points on the circle and at distances 2**-50..1/2 on both sides, the parabola re = -im**2/2, rational points of the circle, a fine grid next to its four extreme points; both types, three layouts; against 60-digit arithmetic",
        "The tests use a few dozen points of the double loops.",
        ["src/log1p"], [("log1p_doubledouble, log1p_theorem4", "src/log1p/log1p_ufunc.c")],
        "Every point of the grids, componentwise tolerance.")

seqprop("C44", "ufunc_inspector prints the structure of the ufunc",
        "For every ufunc and gufunc, ufunc_inspector prints (on the C-level stdout) its name, signature, nin, nout and ntypes, the core dimension tables of a gufunc that follow from its signature, and for ufuncs with one to four inputs and one output every loop with the type numbers and characters that ufunc.types lists, and returns None. "
        "For any other object it prints 'Not a ufunc.', and it takes exactly one argument.",
        "all functions of ufunclab and NumPy, ufuncs made by frompyfunc with 1-5 inputs and by gendot; every gufunc signature of 1-3 arguments over nine operand shapes (fixed, optional, repeated names); every set of up to three loops registered for user types; generic loops by name; ten objects that are no ufuncs",
        "The tests inspect two or three functions and look for a word.",
        ["src/ufunc-inspector"], [("ufunc_inspector", "src/ufunc-inspector/ufunc_inspector.c")],
        "Every ufunc that is available; the expected tables are computed from the signature.")

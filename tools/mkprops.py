import json
P=[]
def add(id,title,stmt,over,q,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
M="inc/susa/matrix.h"
add("P01","A matrix is an independent value through copy, move, assign and resize",
"Whatever sequence of construction, copying, moving, assignment (also to itself, from or to empty and moved-from matrices), resizing and text assignment it went through, a matrix has exactly the shape and elements last given to it, for every element type. No operation on one matrix changes another one, nor an argument it takes by const reference. All memory is released exactly once, and none is used after release or outside its bounds.",
["histories","inputs"],"all histories of value operations over a pool of matrices of every supported element type and both allocators",
"Tests copy or assign a handful of fixed matrices once; aliasing, leaks and lost data only appear in particular histories (self-assignment, empty source, reuse of a moved-from object, same-size versus different-size reassignment).",
[M],[("copy/move constructors, operator=, resize, destructor","inc/susa/matrix.h"),("allocate","inc/susa/matrix.h:allocate")],["element values, shape and size of every live matrix","bytes allocated"])
add("P02","Element access, row/column views, slices and reshaping agree on one layout",
"Element (r,c) of a matrix and its linear element r + c*rows are the same storage; row, column, left, right, mid (inclusive bounds, end > begin), shrink, reshape, set_row, set_col, swap and the vector copies read or write exactly the elements that layout designates, in order, and leave every other element unchanged. A vector keeps its orientation under left, right and mid, and a matrix is sliced by columns.",
["inputs","histories"],"all shapes, element types, index arguments in range and sequences of such operations",
"Tests check single fixed 2x2 to 5x5 matrices, and never use right() on a vector or mid/left/shrink at the edges.",
[M],[("get_lindex","inc/susa/matrix.h"),("row col left right mid shrink reshape set_row set_col swap_rows swap_cols","inc/susa/matrix.h")])
add("P03","Element-wise operators, comparisons and conversions act element by element",
"For equal shapes, +, -, *, / and += and -= between matrices, and between a matrix and a scalar on either side where offered, produce the same shape with each element equal to the scalar operation on the corresponding operands in that order, without modifying operands other than the assigned one. Two matrices compare equal exactly when their shapes and all their elements are equal (and != is the negation). Converting a matrix to another element type casts each element and keeps the shape.",
["inputs"],"all shapes and element values (integers exact, floats bit-for-bit up to rounding) including aliasing of both operands",
"Tests apply each operator to one or two small fixed matrices; an operand-order, tail-element or type mistake stays invisible for those values.",
[M],[("operator+ - * / += -= == !=","inc/susa/matrix.h"),("operator matrix<U>()","inc/susa/matrix.h")])
add("P04","Matrix text form parses to what was written, and printing round-trips",
"Text made of numbers separated by spaces, tabs, carriage returns or commas, with rows separated by ';' or newlines, optionally bracketed and with extra blanks, gives the matrix with exactly those rows and columns and values, however long, both at construction and on assignment to an existing matrix. Printing a non-empty matrix of finite reals and reading the text back gives the same matrix (to printed precision). Text of any other kind is either parsed to some matrix or stopped by an assertion, and never makes the library access memory out of bounds.",
["inputs"],"all well-formed texts (numbers, delimiters, blanks, lengths, element types) and arbitrary byte strings",
"Tests parse about a dozen fixed short strings; delimiter combinations, signs, empty text and rows over 4 kB are never tried.",
[M,"src/matrix.cpp"],[("pre_parser","src/matrix.cpp"),("parser, operator<<","inc/susa/matrix.h")])
add("P05","Invalid requests are stopped by an assertion; valid ones never are",
"A request outside the contract is stopped by a diagnostic assertion before any memory is touched out of bounds: an element index beyond a matrix or past the last element of an array, more indices than dimensions, a row or column index beyond a matrix when reading an element or setting a row or column, a too short row or column, element-wise operands of different shape, a matrix product with mismatching inner dimensions, a zero dimension or a shape whose number of elements is not representable, slicing beyond the end, reshaping to another size, decomposing a non-square matrix, and vector-only or restricted-size functions called otherwise. The same call within the contract, up to the last valid index or size, is never stopped.",
["inputs","configurations"],"all operations with stated preconditions, at and on both sides of each boundary",
"Tests exercise valid calls only: no test crosses a boundary, so a wrong or off-by-one guard is never noticed.",
[M,"inc/susa/array.h","inc/susa/debug.h","inc/susa/linalg.h","inc/susa/solver.h","inc/susa/search.h","inc/susa/fft.h","inc/susa/signal.h","src/ccode.cpp","src/rrcosine.cpp"],
[("SUSA_ASSERT, SUSA_ASSERT_MESSAGE, SUSA_ABORT","inc/susa/debug.h")])
add("P06","A multi-dimensional array gives every index tuple its own element",
"In an array of any number of dimensions every valid index tuple designates its own element, the first index varying fastest in the linear order, identically through every access form (call operator, get with list, vector or separate indices, raw index). A value written at a tuple is read back there until overwritten, and no other tuple changes. Copies, assignments (also to itself), moves and bulk loading give independent arrays with equal dimensions and contents.",
["inputs","histories"],"all dimension lists, index tuples and histories of writes, reads, copies, moves and bulk loads",
"Tests use two fixed shapes and a few tuples; bijectivity, copy independence and bulk loading are not exercised.",
["inc/susa/array.h"],[("index, get, operator()","inc/susa/array.h"),("clone, copy and move","inc/susa/array.h")])
add("P07","The logging allocator's byte count equals the live bytes at every moment",
"After any history of allocations and releases through the logging allocator, directly, by matrices and arrays, by standard containers, concurrently from several threads, or with allocations that fail, the tracker reports exactly the number of bytes currently allocated, and the count from before once all of them are released. Blocks handed out never overlap.",
["histories","schedules","fault_sequences"],"all histories of allocate and deallocate over several element types, containers and threads, and failing allocations",
"The tests check the counter after one or two fixed allocations on one thread; failures, containers and threads never appear.",
["inc/susa/memory.h",M,"inc/susa/array.h"],[("allocator_log, memory_tacker","inc/susa/memory.h")])
add("P08","The bit set behaves as a set of the indices below its size",
"After any sequence of set, reset, push, pop, set-all, reset-all and copies, an index below the size is reported present exactly when the last operation on it added it; indices at or beyond the size are never present and operations on them change nothing. pop removes and returns the smallest member, or returns the size when the set is empty, and any() is true exactly when the set is not empty.",
["histories"],"all set sizes (0, not multiples of 8, large) and operation sequences",
"Tests walk one size and one sequence; set-all beyond the first byte and out-of-range indices are never checked.",
["inc/susa/sets.h","src/sets.cpp","inc/susa/memory.h"],[("bitset","src/sets.cpp"),("memory copy and assignment","inc/susa/memory.h")])
add("P09","Matrix product, transpose, concatenation, flips and identity are exact",
"The product of compatible matrices is the row-by-column sum (exactly, for integers); transpose and conjugate transpose exchange rows and columns (conjugating in the latter), and the identity matrix is neutral. Concatenation stacks vertically when the column counts are equal and otherwise side by side when the row counts are equal, keeping every element and their order. Left-right and up-down flips reverse exactly that direction (a vector is reversed by either).",
["inputs"],"all shapes, element types (integer, real, complex) and values, including one operand given twice",
"Tests check one or two fixed square matrices per function; most shape classes (row/column vectors, wide/tall, unequal widths in concat) are not covered.",
["inc/susa/linalg.h",M],[("matmul transpose hermitian concat fliplr flipud eye","inc/susa/linalg.h")])
add("P10","Determinant and rank are the true determinant and rank",
"The determinant of any square integer matrix equals its exact value as long as intermediate products are representable, and that of a real matrix agrees up to rounding. The rank of any matrix of any shape, given as integers, reals or complex numbers, is the exact number of linearly independent rows, for well separated inputs.",
["inputs"],"all shapes up to a bound, including rank-deficient, zero and rectangular matrices, element types and values",
"Tests check a few fixed matrices; nothing relates the result to an independent computation.",
["inc/susa/linalg.h"],[("det, rank","inc/susa/linalg.h")])
add("P11","LU decomposition reproduces its input or reports failure",
"When LU decomposition reports success, the lower factor is unit lower triangular, the upper factor upper triangular, and their product equals the input up to rounding; every square matrix all of whose leading minors are well away from zero is decomposed successfully. When a pivot is exactly zero before the last column it reports failure instead of returning non-finite factors.",
["inputs"],"all square matrices up to a bound, including singular leading minors, for real element types",
"Tests compare one fixed 3x3 example.",
["inc/susa/solver.h"],[("lu::decompose","inc/susa/solver.h")])
add("P12","Pivoted LU solves and inverts every well-conditioned system",
"For every nonsingular, reasonably conditioned and scaled square matrix, pivoted decomposition (either variant) succeeds, its factors reproduce the row-permuted input with multipliers of magnitude at most one, and the solve and inverse results satisfy A*x = b and A*inv(A) = I up to rounding, also when pivoting is required at several steps. A matrix with a zero column or a pivot column under tolerance is reported as failure.",
["inputs"],"all square matrices up to a bound, element types float and double, right-hand sides, both decomposition variants and the convenience functions",
"Tests solve one 3x3 and invert one 4x4 matrix that need few exchanges; pivot growth in later columns is not exercised.",
["inc/susa/solver.h"],[("lup::decompose, decompose_alt, solve, invert, linsolve, inv","inc/susa/solver.h")])
add("P13","The SVD factors reproduce the matrix, are orthonormal, and are nonnegative",
"For every real matrix of any shape, the singular value decomposition gives nonnegative singular values, as many as the smaller dimension, and left and right factors with orthonormal columns, such that U*diag(S)*V^T equals the input up to single precision. The singular values agree with those computed independently, including for rank-deficient, repeated-value, zero and badly scaled inputs.",
["inputs"],"all shapes (tall, square, wide, 1xn, nx1) and values in single precision",
"Tests check three fixed small matrices, comparing truncated digits.",
["src/svd.cpp","inc/susa/svd.h"],[("svd","src/svd.cpp")])
add("P14","The fast transform and the direct transform both compute the DFT",
"For every vector whose length is a power of two the fast transform equals the discrete Fourier transform sum, and the direct transform equals it for every length, up to rounding, for row and column vectors and, column by column, for matrices. The shape and the input are preserved.",
["inputs"],"all lengths up to a bound, shapes, real element types and values",
"Tests check a length 8 vector and small matrices; larger sizes, length 2 and row/column mixes are not.",
["inc/susa/fft.h"],[("radix2, dft, bit_reverse","inc/susa/fft.h")])
add("P15","Filtering and convolution satisfy their defining difference equation",
"The filter output has the input's length plus the requested tail and equals y(n) = sum b(k) x(n-k) - sum a(k) y(n-k) (k from 1, a(0)=1) with zero state before and zero input after the signal, for row vectors, column vectors, scalars and column by column for matrices. The convolution of two vectors is the full polynomial product, a vector with a matrix convolves every column, and a scalar operand scales; convolution of vectors is commutative up to orientation.",
["inputs"],"all coefficient and signal lengths (also longer coefficients than signal), tails, shapes, integer, real and complex types",
"Tests check a few fixed short inputs against printed digits.",
["inc/susa/signal.h"],[("filter, conv","inc/susa/signal.h")])
add("P16","Resampling, convolution/Toeplitz matrices and Kronecker product are exact",
"Upsampling by u puts row r at row r*u and zeros everywhere else; downsampling by d keeps rows 0, d, 2d, ... of the floor(rows/d) complete groups, and undoes upsampling. The convolution matrix of a vector times (or multiplied by) a signal equals their convolution; a Toeplitz matrix is constant on every diagonal with the given first column and first row (which share the corner), symmetric if only a column is given; the Kronecker product has block (i,j) equal to a(i,j)*B.",
["inputs"],"all shapes, rates, lengths and element values",
"Tests check one or two fixed examples per function, and never read upsampled gaps in reused memory.",
["inc/susa/signal.h"],[("upsample downsample convmtx toeplitz kron","inc/susa/signal.h")])
add("P17","The convolutional encoder is its generator polynomials over GF(2)",
"For every rate-1/n code with any memory of 1 to 31 bits and generators given as octal digits, encoding any bit sequence from the zero state yields, for each input bit and generator in order, the parity of the generator with the current bit and the preceding memory bits. The exposed next-state and next-output functions describe that same machine, encoding is linear and repeatable, copies of an encoder are independent, and the reported rate is 1/n.",
["inputs","histories"],"all n, memory sizes, octal generators, input sequences and histories of encode, set_generator and copies",
"Tests encode one sequence with one code.",
["inc/susa/ccode.h","src/ccode.cpp"],[("encode, next_state, next_output, oct_to_dec","src/ccode.cpp")])
add("P18","The code's BCJR decoder returns the exact posterior likelihood ratio",
"For a terminated codeword received over an AWGN channel, the decoder's value for every information bit equals the ratio of the posterior probabilities of one and zero, given the received values, the linear Eb/N0 and the prior probability of a one, summed over all trellis paths that start and end in the zero state. Decoding noiseless codewords at a reasonable Eb/N0 therefore recovers every bit, and repeated calls give the same answer.",
["inputs"],"all small codes (n, memory, generators), block lengths, received vectors, Eb/N0 and priors within floating point range",
"Tests decode one noiseless block and compare bits; numerical posteriors and priors are never compared.",
["src/ccode.cpp"],[("decode_bcjr","src/ccode.cpp")])
add("P19","ISI encoding is convolution, and sequence detection is maximum likelihood",
"Encoding a symbol sequence for an inter-symbol-interference channel yields the convolution of the impulse response with the sequence preceded and followed by the initial state's symbols. Sequence detection with the same known initial state returns, for any received vector, a symbol sequence whose squared distance to the received vector is minimal over all sequences, and the transmitted one in the absence of noise; detection with unknown initial state (on a channel of floating point type whose first tap is not zero) recovers noiseless transmissions.",
["inputs"],"all small channels (taps, alphabets of 2 to 4 symbols), initial states, sequence lengths and received vectors",
"Tests run one channel, one sequence without noise.",
["inc/susa/channel.h"],[("encode_isi, decode_mlse","inc/susa/channel.h")])
add("P20","The channel BCJR equalizer returns the exact symbol likelihood ratio",
"For a binary alphabet and a received vector of a sequence that starts and ends in the zero state, the equalizer's value for each symbol position equals the ratio of the posterior probabilities of the second and the first alphabet symbol under Gaussian noise with the given Eb/N0, summed over all trellis paths. Thresholding it recovers noiseless transmissions, and repeated calls give the same answer.",
["inputs"],"all small binary channels (2 to 4 taps), lengths, received vectors and Eb/N0 within floating point range",
"Tests run one channel and compare one result.",
["inc/susa/channel.h"],[("decode_bcjr","inc/susa/channel.h")])
add("P21","Modulation maps symbols as specified and noise has the requested power",
"BPSK maps zero to -1 and everything else to +1 element by element. A square QAM constellation has exactly M distinct points on a centred regular grid of unit spacing, demodulation returns a nearest constellation point for any complex input (so every point demodulates to itself), and the noise deviation for a given Eb/N0 in dB follows from the average symbol energy and the bits per symbol. The noise generated for a signal has its shape, zero mean and the power implied by the signal's power, the SNR and the oversampling rate.",
["inputs"],"all bit matrices, square orders 4 to 1024, complex received values, Eb/N0, signals, SNR and oversampling",
"Tests do not cover modulation at all beyond being compiled into examples.",
["inc/susa/modulation.h","src/modulation.cpp"],[("bpsk, qam, awgn","src/modulation.cpp")])
add("P22","The random generator is MT19937, reproducible and within its ranges",
"For every seed the generator delivers the reference MT19937 sequence of that seed (masked as requested; the reference default seed when none is given), through every mixture of its single and bulk calls, and re-initialising with a seed restarts that sequence. Uniform reals are the 32-bit output divided by 2^32-1, bits are its lowest bit, and normal deviates are the polar transform of that same stream, finite, with zero mean and unit variance; copies continue independently and identically.",
["inputs","histories"],"all seeds, call histories (also across state regeneration after every 624 outputs), re-seeding and copies",
"No test looks at the random numbers' values.",
["inc/susa/rng.h","src/rng.cpp"],[("init, generate_numbers, extract_number","src/rng.cpp")])
add("P23","The Mersenne Twister class follows MT19937 and the requested distributions",
"For every seed (and the reference default without one) the generator's masked words are the reference MT19937 sequence, in any mixture of calls, and copies are independent and continue identically. Uniform reals lie in [0,1], Bernoulli draws are one with the requested probability, random integers are the word modulo max plus one, in 1..max, and draws from a discrete distribution return each index exactly for the sub-interval of the unit interval that its probability covers in the documented ordering (ascending or as given), never an index of probability zero.",
["inputs","histories"],"all seeds, histories of mixed draws, copies, and probability vectors",
"No test looks at the random numbers' values.",
["inc/susa/mt.h","src/mt.cpp"],[("genrand_int32, init_genrand, randn, nonuniform","src/mt.cpp")])
add("P24","Sorting, selection, extrema and search return what they promise",
"Sorting returns the same multiset in ascending order, and sort indices are a permutation of all positions that arranges the input in that order. Selecting the k least, k most, or k least among given positions returns k distinct (allowed) positions whose values are the k smallest (largest) in order; minimum and maximum return the first position of the extreme value, per column for matrices; find marks exactly the positions equal to the value. Inputs are unchanged.",
["inputs"],"all vectors and matrices of integer and real types with duplicates, negative and extreme values, and all k below the size",
"Tests sort one or two fixed vectors; an early exit, negative values or ties are not exercised.",
["inc/susa/search.h","inc/susa/base.h"],[("sort sort_indices select_least select_limited_least select_most find","inc/susa/search.h"),("min max","inc/susa/base.h")])
add("P25","The shortest-path search yields true shortest paths",
"For every weighted directed graph with nonnegative weights (zero meaning no edge) and every source, following the returned predecessors from any reachable vertex leads to the source along existing edges with the minimal total weight; the weights and the input are unchanged.",
["inputs"],"all graphs up to a bound (dense, sparse, disconnected, with ties), weights and sources",
"Tests check a fixed small graph.",
["inc/susa/search.h","src/sets.cpp"],[("dijkstra","inc/susa/search.h")])
add("P26","Scalar functions match their mathematical definitions",
"Integer power is exact modulo the type's width whenever representable, log2 is the index of the highest set bit for every nonzero unsigned value of any width, and mod is the floor remainder (in [0,m) for positive m) for the whole integer range. Rounding to d decimals returns the nearest d-decimal value (to the nearest integer without d) as long as the scaled value is representable, alike for scalars and matrices; the normal distribution function and its complement are within 1e-7 of the true value, add up to one and are monotonic up to that error; sign is -1, 0 or 1.",
["inputs"],"all arguments of the integer types and reals, including boundaries of the ranges",
"Tests evaluate each function at a few points.",
["inc/susa/base.h","src/base.cpp"],[("pow log2 mod round normcdf qfunc sign","src/base.cpp")])
add("P27","Reductions, statistics and complex parts are computed over every element",
"Sum, mean and 2-norm of a vector cover all its elements once, and of a matrix are taken per column; the mean of integers truncates the exact quotient. Absolute value, sign, logarithm, real and imaginary part, squared magnitude, conjugate and conversion to complex act on every element and keep the shape. The differences, sum, mean, population variance and deviation of a standard vector match their definitions.",
["inputs"],"all shapes (scalar, row, column, matrix), integer, real and complex element types and values of either sign",
"Tests check a few positive integer examples; negative integers, first elements of abs, and scalars are not.",
["inc/susa/base.h","inc/susa/statistics.h"],[("sum mean norm abs sign log real imag mag conj to_complex diff","inc/susa/base.h"),("mean var stdv","inc/susa/statistics.h")])
add("P28","The root-raised-cosine filter has unit energy and the designed spectrum",
"For every oversampling factor, roll-off in (0,1] and odd order the filter has as many taps as the order, symmetric about the centre, with unit energy, and its centred discrete spectrum is proportional to the square root of the raised-cosine characteristic at the frequency-sampling points L*m/order. When the factor (two or more) divides the order, matched filtering has (numerically) zero inter-symbol interference at the symbol instants in the cyclic sense.",
["inputs","configurations"],"all factors, roll-offs and odd orders up to a bound",
"Tests do not check the taps.",
["src/rrcosine.cpp","inc/susa/rrcosine.h"],[("rrcosine constructor, xrc","src/rrcosine.cpp")])
add("P29","With assertions disabled a rejected request returns and harms nothing",
"When the library is built with assertions disabled (SUSA_NASSERT), a request outside the contract returns instead of stopping: reading an element that is not there gives the default value of the element type, a rejected read, write, slice, row or column update, swap, comparison, selection, product or decomposition touches no memory out of bounds and leaves its operands' elements as they were, and any matrix it returns has a size that is the product of its dimensions. The same holds for empty and moved-from operands.",
["inputs","configurations"],"all operations with stated preconditions, at and beyond each boundary, in a build with assertions disabled, once or several times in a row",
"The tests are built with assertions enabled and make no request outside the contract.",
["inc/susa/debug.h",M,"inc/susa/array.h","inc/susa/search.h","src/ccode.cpp"],[("SUSA_NASSERT: methods return a predefined result","inc/susa/debug.h"),("guards after the assertions","inc/susa/matrix.h")])
add("P30","Time stamps and elapsed times follow the clock",
"The time stamp is the local time at the call as 14 digits: four of the year, two each of the month, day, hour, minute and second, for every instant (years 1 to 9999) and time zone. The chronometer gives the seconds elapsed since it was last started, to the millisecond, for every duration, whether printed or returned, after any history of starts and readings, and is not affected by the wall clock being set in between.",
["inputs","histories"],"all instants, time zones, durations and histories of starts, readings and clock settings",
"Tests can only look at the current time on the real clock.",
["src/utility.cpp","inc/susa/utility.h"],[("tic toc toc_print timestamp","src/utility.cpp")])
add("P31","What a call gives depends on its operands only",
"The result of an operation is a function of its operands (and of the state of the object it is called on): it does not depend on which operations ran before, on other objects, or on what other threads do at the same time with objects of their own. Operations that take an object as a constant may run concurrently on the same object without a data race and deliver what they deliver alone.",
["inputs","histories","schedules"],"all programs of up to 4 threads and 12 operations over all the parts of the library",
"Tests run in one thread, one operation after another in a fixed order.",
["inc/susa","src"],[("no mutable global or hidden object state","inc/susa/matrix.h"),("fft, search, linalg free functions","inc/susa/search.h")])
add("P32","A transmission chain delivers what was sent",
"Symbols sent through constellation, upsampling, pulse shaping, matched filtering, downsampling at the symbol instants and demodulation arrive unchanged whenever noise and residual interference stay below half the symbol distance; bits sent through a convolutional encoder, BPSK and the soft decoder, and symbols through an interference channel and the sequence detector, arrive unchanged whenever the noise stays below the guaranteed margin. Under Gaussian noise of the deviation given for an Eb/N0 the QAM symbol error rate is the theoretical one.",
["inputs","configurations"],"all constellations, pulse parameters, codes, channels and messages up to a bound",
"Tests and examples run single links with fixed parameters and do not compare the message.",
["inc/susa/modulation.h","inc/susa/rrcosine.h","inc/susa/ccode.h","inc/susa/channel.h"],[("qam, bpsk","src/modulation.cpp"),("upsample, downsample, filter","inc/susa/signal.h"),("encode, decode_bcjr","src/ccode.cpp")])
add("P33","The identities that tie the parts together hold",
"For all conforming operands the laws of matrix algebra hold across the functions that compute them (associativity, distributivity, transposes of products, Kronecker mixed products, blocks of products), determinants, ranks, singular values, LU factors, inverses and solutions agree with each other, transforms agree with each other, with convolution and with Parseval's relation, convolution, filtering, convolution and Toeplitz matrices and resampling agree, sorting, selection, extrema and search agree, codes and interference are linear, both generators of random numbers give the same words, and constellations are symmetric.",
["inputs"],"all shapes and operands up to a bound, exactly for integer data and within rounding for real data",
"Tests check isolated values of single functions.",
["inc/susa/linalg.h","inc/susa/signal.h","inc/susa/fft.h","inc/susa/search.h"],[("matmul det rank inv kron","inc/susa/linalg.h"),("conv filter convmtx toeplitz","inc/susa/signal.h")])
add("P34","A failed memory request is reported, and harms nothing else",
"When a request for memory fails in the middle of an operation (that one only, or all later ones too), the operation either stops with a diagnostic assertion, throws std::bad_alloc, or completes with the very result it gives with enough memory; it never goes on with a wrong or partial result, reads or writes memory it does not own, or runs forever. If it throws, everything it had allocated is released, its constant operands are unchanged, and the object it was called on can be used, assigned, copied and destroyed: the same operation succeeds with the same result afterwards.",
["inputs","fault_sequences"],"every operation over all the parts of the library, and every memory request each makes, failing once or from there on",
"No test makes a memory request fail.",
[M,"inc/susa/memory.h","inc/susa/array.h","inc/susa/sets.h","src"],[("allocate: bad_alloc caught, logged, asserted",M+":allocate"),("array copy and assignment","inc/susa/array.h"),("allocator_log","inc/susa/memory.h")])
add("P35","Every build configuration gives the same results",
"For requests within the contract, the results are the same (reals to rounding) whether the library is built with assertions enabled or disabled (SUSA_NASSERT, NDEBUG), with log messages enabled or disabled (SUSA_NDEBUG), with or without optimisation, and with either compiler: assertions and log messages have no effect on what is computed, no request is stopped in one configuration only, and no result depends on values that were never set or on an order of evaluation that is left open.",
["inputs","configurations"],"operations over all the parts of the library in eight build configurations",
"Tests are built and run in one configuration.",
["inc/susa/debug.h","inc/susa","src"],[("SUSA_ASSERT, SUSA_ASSERT_MESSAGE, SUSA_LOG_INF, SUSA_LOG_ERR","inc/susa/debug.h")])
add("P36","Every object is a value of its own",
"Any object of the library (codes, channels, constellations, filters, generators, transforms, decompositions, bit sets, arrays, matrices) holds what it needs: it can be made from temporaries, copied, moved, assigned (also to itself, over an object of other dimensions, or over a moved-from one), swapped, passed by value and kept in containers that grow. Afterwards every one of the objects behaves exactly as one that was made from the same arguments and went through the same calls, whatever happens to the others, and all memory is released.",
["histories"],"histories of copies, moves, assignments, swaps and uses of objects of every class",
"Tests use each object where it was made.",
["inc/susa/ccode.h","inc/susa/channel.h","inc/susa/solver.h","inc/susa/modulation.h","inc/susa/rrcosine.h","inc/susa/rng.h","inc/susa/mt.h","inc/susa/fft.h","inc/susa/sets.h","inc/susa/memory.h","inc/susa/array.h","inc/susa/matrix.h"],[("lu::lu","inc/susa/solver.h"),("lup::lup","inc/susa/solver.h"),("channel::channel","inc/susa/channel.h"),("memory::memory","inc/susa/memory.h")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
import re
for p in P:
    n=len(re.findall(r'[.](\s|$)',p["statement"])); 
    if n>3: print(p["id"],n)
print(len(P))

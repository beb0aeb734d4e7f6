"""The checks: harness options, case counts of the quick tier, what counts as non-trivial."""
import json
import os

_props = {}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")) as _f:
    for _l in _f:
        if _l.strip():
            _d = json.loads(_l)
            _props[_d["id"]] = _d

CHECKS = {}


def check(pid, cases, rule, **kw):
    CHECKS[pid] = dict(kw, title=_props[pid]["title"], cases=cases, rule=rule)


check("P01", 120000, "A case is a history of 5-64 random operations on five matrices of one of 13 element-type/allocator "
      "combinations, compared with a plain model after every operation (1 in 250 histories on matrices of up to 70000 elements); non-trivial if at least two of them were copies, moves, "
      "(self-)assignments, resizes, swaps, text assignments or aliased operations. Cases are distinct by their choice sequence.", opt="-O0")

check("P02", 900000, "A case is a matrix of one of 8 element types and 2 allocators, read through every access form, followed by up to 13 random "
      "views, slices, reshapes, row/column writes and swaps, each compared with a row-major model; non-trivial if it has more than one element.", opt="-O0")
check("P03", 1600000, "A case is one operator (14 forms, 9 element types, special values, aliased operands), comparison pair or conversion, compared element by "
      "element with the scalar operation; non-trivial if the operands have more than one element.", opt="-O0")
check("P04", 600000, "A case is a grammar-generated text with its value matrix (blanks, tabs, commas, row separators, brackets, number spellings, up to "
      "120000 elements), a print/parse round trip at a random precision and format, or an arbitrary text; non-trivial if it has more than one element "
      "(for arbitrary texts: is not empty).", opt="-O0")
check("P05", 700000, "A case is one request (30 matrix operations on 5 element types and 2 allocators, 7 search functions, transforms, codes, filters, array access) "
      "drawn on one side of its precondition's boundary with random shapes and distances; every case is non-trivial: it must be stopped exactly if it is outside.", opt="-O0")
check("P06", 90000, "A case is a history of 1-40 writes, reads through six access forms, copies, (self-)assignments, moves, bulk loads and re-creations over three "
      "arrays of 1-9 dimensions and up to 140000 elements, compared with a model after every step; non-trivial if at least two operations were copies, assignments, moves or loads.", opt="-O1")
check("P07", 100000, "A case is a history of 1-40 allocations and releases (raw blocks, matrices, arrays, standard containers; some of them failing by size or by injected "
      "failure of the n-th memory request) whose live bytes are compared with the tracker after every step, or 2-8 threads allocating concurrently; non-trivial if a failure "
      "was injected, more than two owners were live at the end, or threads were used.", opt="-O0")
check("P08", 250000, "A case is a history of 1-60 operations on two bit sets (sizes 0 to 140000, many around multiples of 8, indices also beyond the size; two sets above 2^32 and 2^35) compared with std::set "
      "after every step; non-trivial if it used set-all, reset-all, a copy, an assignment or draining.", opt="-O1", rss_mb=5600)
check("P09", 1200000, "A case is one product, transpose, conjugate transpose, concatenation, flip or identity on matrices of one of 8 element types whose values make every result "
      "exactly representable, compared element by element with the definition; non-trivial if the operand has more than one element.", opt="-O0")
check("P10", 400000, "A case is one determinant (8 element types, sizes 1-6) or one rank (9 element types, shapes up to 12 rows or columns, or exact echelon forms up to 40, of chosen rank, with zero and repeated "
      "rows and columns, also scaled), compared with exact fraction-free elimination or with Leibniz' sum; non-trivial if the matrix has more than one row and column.", opt="-O0")
check("P11", 2000000, "A case is one LU decomposition (float or double, sizes up to 70) of integers, dominant, random or structured matrices, or of a product of exactly representable "
      "factors with or without a zero pivot; non-trivial if the matrix is larger than 1x1.", opt="-O0")
check("P12", 1000000, "A case is one pivoted decomposition with its factors, solutions and inverse (float or double, sizes up to 60, condition measured independently; singular and "
      "ill-conditioned draws are skipped and not counted as non-trivial), or one with a pivot of a chosen size against the tolerance.", opt="-O0")
check("P13", 1500000, "A case is one decomposition of a single precision matrix (integers, reals, rank deficient, repeated values, diagonal, sparse, badly scaled; shapes up to 30), checked "
      "for reconstruction, orthonormality, sign and against the singular values of a double precision one-sided Jacobi iteration; non-trivial unless 1x1.", opt="-O1")
check("P14", 600000, "A case is one fast (lengths 1 to 262144) or direct transform (lengths 1 to 1200) of a row, column or matrix of integers, reals, an impulse, a tone or a constant, "
      "compared with the DFT sum in long double (all outputs, or a part of them above 256) and in energy; non-trivial if longer than one.", opt="-O1")
check("P15", 400000, "A case is one filtering (finite or recursive, tails, row, column, scalar or matrix input, 6 type combinations, up to 40 denominators, up to 6000 samples) compared with the difference equation within rounding, or one "
      "convolution (6 types, all operand shapes, exchanged operands) compared exactly with the polynomial product; non-trivial if coefficients or both operands have more than one element.", opt="-O0")
check("P16", 1500000, "A case is one upsampling (and back), downsampling, convolution matrix with its product and convolution, Toeplitz matrix (of a column and a row, or symmetric) or "
      "Kronecker product of a matrix of one of 6 element types, compared element by element with the definition; non-trivial if neither operand is of size or factor one.", opt="-O0")
check("P17", 3000000, "A case is a code (1-12 outputs, memory 1-31, random octal generators set in any order) that encodes one or more bit sequences (1-600 bits), compared bit by bit with the parity of "
      "the generator over the input history, or a random walk through its exposed state machine; non-trivial if more than one bit (memory element).", opt="-O1")
check("P18", 200000, "A case is a code (1-8 outputs, memory 1-5, random or well-known generators), a received vector (noiseless, noisy or arbitrary), an Eb/N0 and a prior; every ratio is "
      "compared (1e-8 relative) with the sums over all enumerated terminated input sequences (up to 7 bits) or an independent forward-backward recursion in long double (up to 2500 stages); non-trivial if more than one information bit.", opt="-O1")
check("P19", 90000, "A case is a channel (2-5 taps, alphabet of 2-4, sometimes up to 18 taps or 300 symbols, three types), an initial state and a symbol sequence: the encoded signal is compared exactly, the detected sequence's distance with "
      "the minimum over all sequences (up to 4096 enumerated, else dynamic programming) for noiseless, noisy and arbitrary vectors, or noiseless detection without initial state; non-trivial if more than one symbol.", opt="-O1")
check("P20", 250000, "A case is a channel (2-5 taps, binary alphabet, float or double), a received vector (noiseless, noisy or arbitrary) and an Eb/N0; every ratio is compared with the sums over all "
      "enumerated sequences (up to 8 symbols) or an independent forward-backward recursion in long double (up to 2000 symbols); non-trivial if more than one symbol.", opt="-O1")
check("P21", 300000, "A case is a BPSK mapping, a QAM constellation (4 to 1024 points) with its noise deviation and up to 20 demodulated values (points, inside their cells, on and beside the boundaries, far away), or "
      "the noise of a signal of one of 6 types (1 to 20000 samples), whose power and mean must lie within e^-40 probability bounds; non-trivial if more than one element.", opt="-O1")
check("P22", 400000, "A case is a history of 1-25 single and bulk draws of every kind, re-seedings, copies and assignments of three generators, compared with std::mt19937 and the polar transform of its words; "
      "non-trivial if more than one number was drawn.", opt="-O1")
check("P23", 150000, "A case is a history of 1-25 single and bulk draws of every kind, stored distributions, copies and assignments of two generators, compared with std::mt19937 and with the sub-interval of the unit "
      "interval that each drawn index must cover; non-trivial if more than one number was drawn.", opt="-O1")
check("P24", 500000, "A case is one sorting, selection (least, most, least among candidates), extremum (vectors and matrices) or search over values of one of 7 types with many ties, "
      "presorted orders and extreme values, also neighbouring values and vectors of up to 70000 elements, compared with a sorted copy; non-trivial if more than one element.", opt="-O0")
check("P25", 2000000, "A case is a directed weighted graph (1-40 vertices, six densities, cheap detours, undirected, huge weights; 6 types) and a source, whose returned paths are walked and compared with the distances by "
      "repeated relaxation; non-trivial if it has more than two vertices.", opt="-O1")
check("P26", 12000000, "A case is one evaluation of an integer power, logarithm, floor remainder, rounding (scalar and matrix), normal distribution pair or sign at arguments near powers of two, limits and ties, compared with exact "
      "128-bit or long double results; non-trivial if the argument is not a trivial one (0, 1).", opt="-O1")
check("P27", 2000000, "A case is the reductions, the elementwise functions or the complex parts of one matrix, or the statistics of one standard vector (9 element types, 1 in 3000 with up to 70000 elements), compared with the definition evaluated in wider types; "
      "non-trivial if more than one element.", opt="-O0")
check("P28", 250000, "A case is one filter (factor 1-16, roll-off 1e-6 to 1, odd order up to 141), whose energy, symmetry, spectrum and cyclic interference are evaluated; non-trivial if it has more than one tap.", opt="-O1")
check("P29", 500000, "A case is a request outside its precondition (30 matrix operations on 5 element types and 2 allocators, 7 search functions, transforms, codes, array access), or one of 70 functions "
      "with operands of any shape, empty ones included, made one to three times in a build with assertions disabled; non-trivial if the request is one that assertions would have rejected or with unrestricted operands.", opt="-O0", flags=["-DSUSA_NASSERT"])
check("P30", 1200000, "A case is an instant (years 1 to 9999) in a time zone (fixed offsets to the second or with daylight saving) whose time stamp is compared with an independent calendar, or a history of 2-12 starts, delays "
      "(0 ns to 95 years), wall clock settings and readings of the chronometer on interposed clocks; non-trivial if there is a time stamp or a reading.", opt="-O1")
check("P31", 30000, "A case gives 2-4 threads 1-3 operations each out of 48 (on operands of their own, of up to a few hundred elements, or reading shared matrices and arrays), compares what each operation delivers with two runs one after another "
      "in opposite orders, and watches all memory accesses for races (ThreadSanitizer); non-trivial if more than one operation runs.", opt="-O1", san="thread", fuzz=False, replays=6,
      technique="property-based testing of generated concurrent programs against sequential runs, under ThreadSanitizer")
check("P32", 500000, "A case is a chain of transmitter and receiver (QAM over oversampled pulse shaping with matched filtering, terminated convolutional code over BPSK with soft decoding, intersymbol interference with sequence detection) whose noise margin is "
      "computed independently, or a count of symbol errors compared with theory within 6 deviations; non-trivial if more than one symbol.", opt="-O1")
check("P33", 2000000, "A case is one of 41 identities between different functions (products, inverses, decompositions, transforms, convolutions, selections, generators, codes, channels) evaluated on random operands; non-trivial if they have more than one element.", opt="-O0")
check("P34", 400000, "A case is one of 48 operations over all the parts of the library on random operands (or repeated calls on one of 7 kinds of objects, a history of assignments, loads and copies of three arrays, or a matrix made from "
      "a text), in which one memory request, or one and all later ones, fail; it must stop, throw without leaving memory allocated, or complete with the same result, leave constant operands unchanged and succeed afterwards; "
      "non-trivial if a request failed (and, for objects and texts, did not stop the program).", opt="-O1", flags=["-Wl,--wrap=malloc", "-Wl,--wrap=realloc"])
check("P35", 500000, "A case is one of 48 operations over all the parts of the library on random operands, carried out by the library as built in eight configurations (assertions and log messages on and off, NDEBUG, four optimisation levels, "
      "two compilers), whose results are compared value by value; non-trivial: all.", opt="-O1", variants=True, fuzz=False,
      technique="property-based testing: differential between build configurations on generated operations")
check("P36", 400000, "A case is a history of 2-12 steps on three objects of one of 13 classes (made from arguments that are gone afterwards, copied, moved, assigned, swapped, passed by value, copied within a growing vector, destroyed, used), in which each "
      "use is compared bit by bit with that of a new object of the same arguments and history; non-trivial if an object was copied, moved, assigned or swapped.", opt="-O1")

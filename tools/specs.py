"""What each check builds and how it is described in its evidence."""
WRAP = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"]

SPECS = {}

SPECS["D01"] = dict(
    harness=[dict(name="D01", sources=[], plain_sources=["d01/d01.cpp", "d01/sched.cpp"],
                  upto="units", variant="instr", static=True, ldflags=WRAP + ["-rdynamic"])],
    rule="a case is a program of 2 to 4 threads on the label registry, explored under every "
         "interleaving of its synchronisation operations, or a sequential history; non-trivial: "
         "more than one interleaving, or a history that creates labels",
    bounds={"quick": "2 threads with up to 2 operations of 5 (3 of 3), 3 threads with up to 2, 4 with 1; "
                     "no preemption bound; sequential histories of 4 creations over 10 names",
            "thorough": "2 threads with up to 3 operations of 5, 3 threads with up to 2 of 4, 4 with 1 of 4; "
                        "no preemption bound; sequential histories of 5 creations over 10 names"},
    assumptions=["switching at synchronisation operations covers all behaviours because every "
                 "execution is checked to be free of data races",
                 "the memory model is sequentially consistent for atomics"],
    case_limit=300,
    technique="stateless model checking: all interleavings of the real code under a controlled "
              "scheduler (dynamic partial-order reduction), with a happens-before race check",
)

SPECS["C01"] = dict(
    harness=[dict(name="C01", sources=["core/c01.cpp"], upto="core")],
    rule="a case is one state of a dimension set with every operation of the alphabet applied, or all "
         "histories with given first two steps; non-trivial: the set is not empty",
    bounds={"quick": "sets of up to 5 of 5 labels (beyond the stack capacity of 4), extents 0..2 (4 labels: "
                     "at most one extent other than 2, 5 labels: none), about 500 operations each; concatenation and edges of all pairs of up to 3 labels with extents 0..3; histories of 4 of 39 steps",
            "thorough": "sets of up to 5 of 6 labels, extents 0..2; histories of 5 steps"},
)

SPECS["C02"] = dict(
    harness=[dict(name="C02", sources=["core/c02.cpp"], upto="core", variant="asan")],
    rule="a case is all histories with given first two steps, each compared with an ordered map after every "
         "step, and all iterators held across all steps; all are non-trivial",
    bounds={"quick": "3 keys of type string and Dim, 32 steps, histories of 4; 6 kinds of iterators at every "
                     "position held across every step after histories of 3",
            "thorough": "the same with histories of 5"},
)

SPECS["E01"] = dict(
    harness=[dict(name="E01", sources=["core/e01.cpp"], upto="core", variant="asan")],
    rule="a case is all histories of buffer operations with given first two steps, run on the real template "
         "and compared with optional vectors; all are non-trivial",
    bounds={"quick": "3 buffers, 48 steps, histories of 4 for objects, 3 for strings, int, bool; each element "
                     "operation of the last of 3 steps failing in turn; sizes around the grain size up to 1000",
            "thorough": "histories of 5 for objects, 4 for strings"},
)

SPECS["V01"] = dict(
    harness=[dict(name="V01", sources=["core/v01.cpp"], upto="core")],
    rule="a case is one shape (or shape and layout of the first operand, or bins with given sizes) with all "
         "layouts of the operands, iterated from every start to every end; non-trivial: more than one element, "
         "or binned",
    bounds={"quick": "one operand: up to 6 dimensions, extents up to 3 (2 from 4 dimensions on) and all strides of "
                     "a set of 3 to 9; two operands: up to 3 dimensions, extents up to 3, all strides or all memory "
                     "orders and broadcasts; up to 5 operands in 2 dimensions; binned: up to 4 bins in up to 3 "
                     "dimensions with up to 2 events, 7 kinds of buffers, up to 3 operands, all layouts of the bins",
            "thorough": "as quick with more strides, gaps in all layouts and up to 6 bins"},
)

SPECS["N01"] = dict(
    harness=[dict(name="N01", sources=["core/n01.cpp"], upto="core")],
    rule="a case is one first argument with all second arguments, one base with all exponents, all sequences "
         "from given first elements, or one shape with all its indices; non-trivial: all but the scalar shape",
    bounds={"quick": "integers within 40 of zero and within 2 of every power of two, of 3/2 powers of two, of the "
                     "limits and 1 of powers of ten; fractions of a quarter up to 10; powers up to the range of the "
                     "type; sequences of up to 6 of 7 values and long ones with one element off; shapes of up to 5 "
                     "dimensions",
            "thorough": "integers within 150 of zero, fractions up to 30, sequences over 9 values"},
    technique="model checking: exhaustive enumeration of a bounded set of arguments, sequences and shapes on the "
              "real code, compared with 128-bit arithmetic and definitions",
    note="The functions are pure, so the explored space is that of their arguments rather than of histories.",
)

SPECS["S01"] = dict(
    harness=[dict(name="S01", sources=["variable/s01.cpp"], upto="variable")],
    rule="a case is a pair or triple of transform types with every combination of the transforms of these types, "
         "one transform with all others, or the components of one array; non-trivial: all but arrays of one element",
    bounds={"quick": "14 rotations, 6 matrices, 4 translations, 12 affine maps: all pairs in 3 x 3 memory layouts, all "
                     "triples, 6 vectors; all 81 x 81 small quaternions; components of arrays of up to 3 x 3 in 6 selections",
            "thorough": "8 matrices, 5 translations, 16 affine maps"},
    technique="model checking: exhaustive enumeration of all pairs and triples of a bounded set of transforms on the "
              "real code, compared with 4x4 matrices",
    note="The operations are pure, so the explored space is that of their operands rather than of histories.",
)

SPECS["O01"] = dict(
    harness=[dict(name="O01", sources=["variable/o01.cpp"], upto="variable")],
    rule="a case is one operation with one combination of element types and all combinations of values, one shape "
         "and one selection of dimensions of every operand in all combinations of layouts, or one choice of bin "
         "sizes with all bin layouts; non-trivial: all but scalars",
    bounds={"quick": "51 operations x all combinations of 8 element types x all pairs or triples of up to 9 values, "
                     "arrays contiguous or strided or scalar, in place and with outputs, 10 units per operand; 1 to 4 "
                     "operands of every selection and order of up to 3 dimensions (2 from 3 operands on), extents up "
                     "to 4, up to 6 layouts each; up to 4 bins of up to 2 events in 4 arrangements",
            "thorough": "bins of up to 3 events"},
    technique="model checking: exhaustive enumeration of a bounded set of operands, layouts and types on the real "
              "code, compared with element-by-element evaluation by label",
)

SPECS["O02"] = dict(
    harness=[dict(name="O02", sources=["variable/o02.cpp"], upto="variable")],
    rule="a case is one operation with one combination of element types and of operands with variances, and all "
         "combinations of values and variances; or one combination of dimensions in all layouts; or one relation "
         "of operands that share data; or one choice of bin sizes",
    bounds={"quick": "51 operations x all combinations of 5 element types x all choices of operands with variances x "
                     "all pairs or triples of 9 values with 3 variances; up to 2 dimensions in 6 x 6 layouts; 3 bins "
                     "of up to 2 events",
            "thorough": "the same"},
    technique="model checking: exhaustive enumeration of a bounded set of operands with and without variances on the "
              "real code, compared with derivatives evaluated in extended precision",
)

SPECS["U01"] = dict(
    harness=[dict(name="U01", sources=["core/u01.cpp"], upto="core")],
    rule="a case is one unit reachable by programs of up to two operations, with every unary operation and every "
         "binary operation with all units reachable by one operation; all are non-trivial",
    bounds={"quick": "16 units; all units reachable with 2 operations against all reachable with 1 (operations that need equal units: against the 16); 72 units at the "
                     "limits of the exponents; powers between -256 and 256 and beyond 32 bits",
            "thorough": "all pairs of units reachable with 2 operations"},
    technique="model checking: exhaustive enumeration of the states reachable by programs of unit operations, on the "
              "real code, compared with exponent vectors",
    assumptions=["the stand-in for LLNL-Units in env/llnl implements that library's public interface"],
)

SPECS["O06"] = dict(
    harness=[dict(name="O06", sources=["variable/o06.cpp"], upto="variable")],
    rule="a case is a block of value sequences, one shape in all layouts and orders of dimensions, one large shape, "
         "or one choice of bin sizes, each with every reduction over every dimension; non-trivial: more than one element",
    bounds={"quick": "10 reductions over every dimension and all of them, 8 element types with and without variances: "
                     "all sequences of up to 4 of 4 to 7 values; all shapes of up to 3 dimensions with extents up to 3 "
                     "in 6 layouts and broadcast and all orders; 23 shapes beyond the size where loops are split; up to 4 bins of up "
                     "to 2 events in 4 arrangements; cumulative sums likewise",
            "thorough": "sequences of 5"},
    technique="model checking: exhaustive enumeration of a bounded set of arrays on the real code, compared with folds "
              "by label",
)

SPECS["V02"] = dict(
    harness=[dict(name="V02", sources=["variable/v02.cpp"], upto="variable")],
    rule="a case is one buffer shape, one element kind and one eighth of the first operations, with all chains from "
         "there; states are distinct (dimensions, offset, strides, selected positions) of views reached, each reached "
         "state explored once; non-trivial: more than one element",
    bounds={"quick": "18 shapes of up to 4 dimensions; numbers with variances: chains of up to 3 operations (2 for more "
                     "than 8 elements), strings and bins: 1 to 2; operations: every point, every range with steps up to 3, every order of "
                     "dimensions, broadcasts to 0, 1, 2 at every position, every folding, every flattening, squeezes, "
                     "renames, and all kinds of calls that must be rejected; in every state all elements are read and "
                     "written in three ways",
            "thorough": "one operation more, steps up to 4"},
    technique="model checking: explicit-state exploration of all views reachable by bounded chains of operations on the real "
              "code, in lock step with a reference model that maps labelled positions to buffer positions")

SPECS["O07"] = dict(
    harness=[dict(name="O07", sources=["dataset/o07.cpp"], upto="dataset")],
    rule="a case is one element type, order and length with all value sequences (by first element), one shape with all "
         "dimensions and layouts, or one call that must be rejected; non-trivial: more than one element",
    bounds={"quick": "all sequences of up to 5 of 4 or 5 values (with NaN and infinities, ties, variances) of 6 element types; all keys "
                     "of up to 4 of 2 to 4 values of 7 element types, sorting variables, data arrays of 3 shapes with "
                     "every kind of metadata, binned data in 4 arrangements and datasets; all 720 permutations of 6; "
                     "up to 70000 elements",
            "thorough": "keys of up to 5"},
    technique="model checking: exhaustive enumeration of all keys over a bounded alphabet on the real code, compared with "
              "a reference model of data with metadata")

SPECS["O10"] = dict(
    harness=[dict(name="O10", sources=["dataset/o10.cpp"], upto="dataset")],
    rule="a case is one sequence of old edges with all sequences of new edges, one arrangement of dimensions and types with "
         "many edges in all layouts, one combination of masks, or one call that must be rejected; non-trivial: all but the unmasked data arrays",
    bounds={"quick": "all 26 sequences of 2 to 5 old edges out of 5 with all 154 sequences of 2 to 4 new edges out of 8, "
                     "ascending and descending, 5 element types, with variances, dimension first and last; 11 x 27 sequences for 9 arrangements of "
                     "up to 3 dimensions in 6 layouts and broadcast with 3 types of edges; edges of two dimensions; 20000 bins; 64 combinations of masks; "
                     "all unsorted sequences of 3",
            "thorough": "up to 8 new edges"},
    technique="model checking: exhaustive enumeration of edges over a bounded grid on the real code, compared with the overlap rule")

SPECS["O11"] = dict(
    harness=[dict(name="O11", sources=["dataset/o11.cpp"], upto="dataset")],
    rule="a case is one shape, unit of the data, list of dimensions and kind of coordinates, for all element types, with and "
         "without variances, dense and binned, in all layouts; or one dataset of three items; non-trivial: all",
    bounds={"quick": "8 shapes of up to 3 dimensions, 10 units, 7 lists of dimensions, 8 kinds of coordinates (edges of float64, "
                     "float32 and int64, unaligned, missing, dimensionless, of two dimensions, not edges), 6 types of data in 6 layouts; "
                     "all datasets of three items out of 5 units, both directions",
            "thorough": "same"},
    technique="model checking: exhaustive enumeration of shapes, units and coordinates on the real code, compared with the exact widths")

SPECS["O12"] = dict(
    harness=[dict(name="O12", sources=["dataset/o12.cpp"], upto="dataset")],
    rule="a case is all lines (or pairs of lines) of one length and element type in all layouts, all evenly spaced lines of one "
         "length with one step changed, all ends of an even spacing with one number of points, or data of one shape with all pairs of "
         "coordinates; non-trivial: all",
    bounds={"quick": "all lines of up to 5 elements over alphabets of 2 to 6 values with NaN and infinity, 7 element types, 6 layouts and broadcast; all pairs of "
                     "lines of up to 3 elements along the inner and outer dimension; lines of 7, 40 and 300 elements with one changed step; "
                     "36 pairs of ends with 1 to 9 points; all pairs of coordinates of up to 2 dimensions",
            "thorough": "lines of up to 6 elements, every position of the changed step"},
    technique="model checking: exhaustive enumeration of values and dimensions on the real code, compared with the definitions")

SPECS["B01"] = dict(
    harness=[dict(name="B01", sources=["dataset/b01.cpp"], upto="dataset")],
    rule="a case is one set of edges or labels with all tables of a given number of events, one set of old and new edges with all "
         "contents of the bins, one arrangement of bins, metadata and keys with all layouts, or one size; non-trivial: not the empty table",
    bounds={"quick": "tables of up to 4 events with coordinates from up to 9 values at, between and beyond the edges (NaN, infinite, next to an "
                     "edge) for 12 sequences of edges and 72 sequences of labels of 8 pairs of types; all pairs of 25 events for 11 sets of keys; "
                     "binned data of up to 3 bins in up to 2 dimensions with up to 3 events rebinned to all subsets of 8 edges; 12 arrangements "
                     "of up to 8 bins, 10 kinds of metadata and masks, 25 sets of keys, 5 layouts, 3 contents; 78 sizes around the limits "
                     "of the algorithms (512 bins, 16384 bins, 100000 events)",
            "thorough": "tables of up to 5 events, 8 contents, up to a million events"},
    technique="model checking: exhaustive enumeration of event tables, bins and keys within bounds on the real code, compared with a "
              "reference that looks up every event",
)

SPECS["B02"] = dict(
    harness=[dict(name="B02", sources=["dataset/b02.cpp"], upto="dataset")],
    rule="a case is one sequence of edges with all tables of a given number of events, all edges of one type, one combination of types, "
         "one arrangement of dense or binned data with masks and metadata in all layouts, or one size; non-trivial: not the empty table",
    bounds={"quick": "tables of up to 4 events with coordinates from up to 9 values for 12 sequences of edges, dense, in one bin and in two "
                     "bins, also against the sums of bins; all sequences of up to 4 of 5 edges, sorted or not, of 5 types; 68 combinations of "
                     "types; 13 arrangements of dense data of up to 3 dimensions and 9 of bins with 16 combinations of masks, 3 contents, 5 layouts; "
                     "32 sizes around 100000 events and around 10**8 old times new bins",
            "thorough": "tables of up to 5 events, 5 edges, 6 contents, up to 2 million events"},
    technique="model checking: exhaustive enumeration of event tables, bins, masks and edges within bounds on the real code, compared "
              "with a reference that looks up every event",
)

SPECS["M01"] = dict(
    harness=[dict(name="M01", sources=["dataset/m01.cpp"], upto="dataset")],
    rule="a case is all histories from one initial object that start with a given operation; states are distinct (content, alignment, "
         "order, read-only flags, second object) of the model, each expanded once per number of operations left; non-trivial: the first operation is accepted",
    bounds={"quick": "all histories of up to 3 operations from 5 data arrays and 3 datasets: 105 operations on data arrays and 140 on "
                     "datasets, with 20 coordinates, 8 masks, 6 attributes and 8 data that fit, are edges, are edges of a former dimension or do "
                     "not fit, 12 slices with and without copying, 7 renamings, dropping, extracting, views, shallow and deep copies kept aside",
            "thorough": "histories of up to 4 operations"},
    technique="model checking: explicit-state exploration of all operation histories up to a depth on the real code in lock step with a plain model",
)

SPECS["M02"] = dict(
    harness=[dict(name="M02", sources=["dataset/m02.cpp"], upto="dataset")],
    rule="a case is one state of the metadata of the first operand with all states of the second operand, one operation "
         "with one pair of dimensions in all variants, or one pair of datasets; non-trivial: all operations were applied",
    bounds={"quick": "one coordinate in 27 x 27 states (values, unit, type, NaN, edges, dimensions, alignment) for 16 pairs of dimensions; three "
                     "coordinates in 5 x 5 states each; two masks in up to 12 x 12 states each for 16 pairs of dimensions; slices as targets; 14 x 14 attributes; "
                     "all 16 binary, 4 in-place and 17 unary operations; datasets of up to 3 items with masks and 5 x 5 x 3 states of coordinates in "
                     "all operations with datasets, data arrays, variables and own items; merging",
            "thorough": "all pairs of masks, 5 x 5 x 5 states of coordinates"},
    technique="model checking: exhaustive enumeration of all combinations of metadata states of the operands on the real code, compared "
              "with a plain model of the documented rules",
)

SPECS["M03"] = dict(
    harness=[dict(name="M03", sources=["dataset/m03.cpp"], upto="dataset")],
    rule="a case is one element type and pattern of one or two masks with all patterns of further masks, or one sequence of group "
         "keys with all masks; non-trivial: something is masked",
    bounds={"quick": "8 element types; all pairs of masks of up to 4 elements with masked elements holding NaN, infinities or extreme values; "
                     "3 masks (x, y, x and y) of 2 x 3 elements in 2 orders and 6 layouts; up to 3 dimensions; binned data of up to 3 and 2 x 2 bins with all "
                     "masks of bins and of up to 5 events; 10 reductions of one and of all dimensions, of data arrays, datasets and bins; all group keys of up to 4 positions "
                     "with all masks; rebinning, histogramming, binning, grouping and concatenating with all masks",
            "thorough": "all masks of 2 x 3 elements"},
    technique="model checking: exhaustive enumeration of all mask patterns within bounds on the real code, compared with the same operation without the masked elements",
)

SPECS["M04"] = dict(
    harness=[dict(name="M04", sources=["dataset/m04.cpp"], upto="dataset")],
    rule="a case is one object compared with all objects of its universe (in all layouts), or one element type and length with a change at every "
         "position; non-trivial: all",
    bounds={"quick": "all pairs of about 2400 variables of 9 element types, 15 shapes, 4 units, with and without variances; all pairs of contents of up to 4 elements "
                     "from up to 6 values (NaN, signed zero, infinity, neighbouring numbers) in 6 x 6 layouts; a change of each of up to 100 elements and of each number of "
                     "5 kinds of structures; nested variables, data arrays and datasets; all pairs of about 2500 data arrays with 4 data, 6 x 3 coordinates, 3 x 2 masks, 3 attributes, "
                     "in two orders; all sets of 9 entries; about 700 binned variables of both kinds and their slices; 800 datasets of up to 3 items",
            "thorough": "6 values at 3 positions in all layouts"},
    technique="model checking: exhaustive enumeration of all pairs of objects of bounded universes on the real code, compared with equality of plain models",
)

SPECS["B04"] = dict(
    harness=[dict(name="B04", sources=["dataset/b04.cpp"], upto="dataset")],
    rule="a case is a part of all sequences of labels or keys of a given type and length, one division of a longer sequence, or one element type, order of "
         "dimensions and grouped dimension with all labels in all layouts; non-trivial: at least two positions",
    bounds={"quick": "7 types of labels with up to 9 values (NaN of both signs, signed zeros, infinities, neighbouring and extreme numbers, empty and long strings) in all "
                     "sequences of up to 4, 5, 6 or 10 positions; 9 sequences of bin edges of 4 types with all sequences of up to 4 or 5 of 9 keys; two groups of up to 11 positions in "
                     "all ways; 8 element types with and without NaN in 2 and 3 dimensions, along each dimension, in 6 layouts; binned data in 4 arrangements; 9 reductions and "
                     "concatenation of data arrays and datasets; keys that are rejected",
            "thorough": "sequences of up to 6, 7 or 12 positions"},
    technique="model checking: exhaustive enumeration of all sequences of keys within bounds on the real code, compared with reductions of the members of each group",
)

SPECS["B03"] = dict(
    harness=[dict(name="B03", sources=["dataset/b03.cpp"], upto="dataset")],
    rule="a case is one kind of events and one assignment of sizes to the bins, with all views and layouts; one pair of size assignments for concatenation; one first range; "
         "or one combination of types of a function with all its edges and arguments; non-trivial: all",
    bounds={"quick": "7 kinds of events (variables and tables, with variances, strings); all sizes up to 3, 2, 2 and 1 of one, 2, 3 and 2 x 2 bins, each in 4 arrangements of the bins "
                     "in the buffer (gaps, reversed) and all views by up to two slices and transposes; copies, comparison, 10 reductions, 8 operations, 6 in-place operations and all assignments, "
                     "with the whole buffer compared; concatenation and appending of all pairs of sizes, arrangements and views; all sequences of up to 3 ranges of 3 events; "
                     "functions of events for 9 x 5 combinations of types, up to 16 sequences of edges with all arguments at and next to edges, all masks and fill values; ranges of bins of any shape and stride; products with tables of bins of plain numbers in both orders",
            "thorough": "sizes up to 3 of 3 bins and up to 2 of 2 x 2 bins"},
    technique="model checking: exhaustive enumeration of all bin sizes, buffer layouts, views and operations within bounds on the real code, compared with lists of events",
)

SPECS["O08"] = dict(
    harness=[dict(name="O08", sources=["dataset/o08.cpp"], upto="dataset")],
    rule="a case is one element type, number of pieces and shape with all extents of the pieces; one pair of shapes with all kinds of a coordinate or mask of each piece; "
         "or one shape and pattern of values with all metadata and all ways to fold or flatten; non-trivial: all",
    bounds={"quick": "9 element types; up to 3 pieces of extent up to 3 or without the dimension, in 3 dimensions, 6 layouts; all pairs of 36 variables along 3 dimensions; "
                     "all foldings of up to 6 elements into up to 3 dimensions and all flattenings of up to 3 dimensions, in 6 layouts and broadcast; up to 3 datasets of coords only with extents 0 to 3 and 16 sets of coords; data arrays: all kinds of "
                     "metadata (absent, scalar, points, edges, other dimension, two dimensions) of each of up to 3 pieces, dense and binned, also as datasets; metadata over all subsets of dimensions "
                     "in both orders with edges along each, 5 patterns of values, all foldings, flattenings, transposes, squeezes",
            "thorough": "all combinations of kinds for three pieces"},
    technique="model checking: exhaustive enumeration of all shapes, pieces and metadata within bounds on the real code, compared with gathers of plain arrays",
)

SPECS["O09"] = dict(
    harness=[dict(name="O09", sources=["dataset/o09.cpp"], upto="dataset")],
    rule="a case is all coordinates of one pair of types with a given length and first label with all queries and ranges, one long "
         "coordinate, all conditions of one length for one arrangement, or one list of calls that must be rejected; all are non-trivial",
    bounds={"quick": "all 341 sequences of up to 4 labels out of 4 as points and as edges, all 9 queries and all 100 ranges at, between and beyond "
                     "the labels, 15 pairs of types, aligned and unaligned, 6 layouts, data arrays and datasets of 1 and 2 dimensions; regular, "
                     "irregular and repeated labels up to length 24; all conditions up to length 5 for 9 types, dense and binned, 4 arrangements "
                     "of up to 3 dimensions, 6 layouts of data and condition, with all kinds of metadata",
            "thorough": "up to 5 labels, long coordinates up to 40, conditions up to length 7"},
    technique="model checking: exhaustive enumeration of coordinates, queries and conditions within bounds on the real code, compared with "
              "a reference that looks at every element")

SPECS["O03"] = dict(
    harness=[dict(name="O03", sources=["dataset/o03.cpp"], upto="dataset")],
    rule="a case is one view as target with all views of the same buffer as operand and all operations; non-trivial: at least one operand fits",
    bounds={"quick": "all views of a buffer of shape 5, 4, 2x3, 3x3 and 2x2x2 that up to 3 steps (slice, range, stride, transpose, rename, fold, flatten) lead to as "
                     "target, up to 4 steps (also broadcast) as operand, 20 operations, 7 types, with variances; components of vectors; 7 arrangements of "
                     "bins over one buffer with other bins and events as operand; all pairs of slices of data arrays; datasets of two items "
                     "over common or different buffers in 7 views with 18 views, items, permuted items and slices as operand",
            "thorough": "one step more"},
    technique="model checking: exhaustive enumeration of pairs of views of one buffer on the real code, compared with the same operation on an independent copy")

SPECS["U02"] = dict(
    harness=[dict(name="U02", sources=["dataset/u02.cpp"], upto="dataset")],
    rule="a case is one unit as source with all units as target, all values, and all layouts, for one element type (dense or binned), for "
         "spatial transforms, or for data arrays; all are non-trivial",
    bounds={"quick": "all pairs of 41 units of 12 dimensions, 12 element types with and without variances, 14 to 55 boundary values each, 6 layouts, "
                     "scalars, empty and broadcast arrays; bins of variables and of tables in 3 arrangements, whole and sliced; data arrays; both copy policies"},
    technique="model checking: exhaustive enumeration of pairs of units, types, values and layouts on the real code, compared with exact rational scaling",
    assumptions=["the stand-in for LLNL-Units in env/llnl implements that library's public interface"])

SPECS["V03"] = dict(
    harness=[dict(name="V03", sources=["dataset/v03.cpp"], upto="dataset")],
    rule="a case is one initial object and the first one or two steps of programs with all continuations; all are non-trivial",
    bounds={"quick": "8 initial objects (variable, data array, dataset, dense and binned, with data shared between items or with a coordinate); chains of up "
                     "to 3 of 32 steps (slices, copies, items, parts, transpose, fold, broadcast, rename) and one of 35 modifications of any object "
                     "obtained on the way; programs of 2 steps and 1 modification, or 1 step between 2 modifications, on any of the objects",
            "thorough": "chains of up to 4 steps, programs with 2 modifications more"},
    technique="model checking: exhaustive enumeration of programs of views, copies and modifications on the real code in lockstep with a model "
              "of shared buffers, all objects compared after every modification")

SPECS["O04"] = dict(
    harness=[dict(name="O04", sources=[], plain_sources=["o04/o04.cpp", "o04/races.cpp"],
                  upto="dataset", variant="instr", static=True, ldflags=WRAP + ["-rdynamic"])],
    rule="a case is one operation on one set of operands, run once for every way of splitting each of its parallel loops and every order of "
         "the chunks; non-trivial: some loop can be split",
    bounds={"quick": "all element-wise operations (3 type combinations, 5 shapes, 4 layouts/broadcasts, new, in place, to given output), in-place operations on overlapping "
                     "views and broadcast targets, reductions and cumsum (13 small shapes, 9 of more than 16384 elements from where on they are parallel), bin (tables "
                     "and bins in 3 arrangements, edges, regular edges and groups), histogram, all operations on bins, groupby (dense, masked, dataset, bins), sort, rebin, concat, "
                     "copy; loops of up to 4 elements: all partitions possible with the grain size, longer: 2 parts and finest (more than 4 equal loops in an operation: finest); "
                     "parts run in reverse order; and all loops at once split finest / in halves / first element split off, in both orders; sort with ties in both orders",
            "thorough": "more types, layouts and sizes; all partitions of up to 6 elements, all 2 and 3-part partitions of longer loops (cuts up to 30); all orders of up to 4 parts, else "
                        "forward, reverse and rotated"},
    assumptions=["chunks of a parallel loop that access no common memory with a write commute, so one order of execution covers all "
                 "interleavings; several orders are run nevertheless",
                 "what is done while holding a lock or in the initialisation of a static local is synchronised (D01 covers the only such code)",
                 "code of the C++ standard library that is not inlined is not observed"],
    technique="model checking: exhaustive enumeration of the choices of the parallel runtime (partitions and orders of all parallel loops) on the "
              "real code, with a complete check of the memory accessed by the chunks for conflicts (which makes one order represent all "
              "interleavings), and comparison of all results with those of a serial run")

SPECS["O05"] = dict(
    harness=[dict(name="O05", sources=["dataset/o05.cpp"], upto="dataset")],
    rule="a case is one target and modifying operation with all operands, or one dataset with all operations and operands; all are non-trivial",
    bounds={"quick": "36 variables (types, views, read-only, binned) x 47 operations x 190 operands; 20 data arrays x 55 operations x 20 kinds of data x 7 of coordinates "
                     "x 90 of masks, and 40 operations on metadata x 190 operands; datasets of 3 items with an odd one of 12 kinds in each position, whole and sliced, with "
                     "shared data x 18 operations x variables, data arrays and datasets with odd items in each position",
            "thorough": "all pairs of masks, all combinations of coordinates and masks for datasets"},
    technique="model checking: exhaustive enumeration of states, modifying operations and operands on the real code; whenever one raises, the complete state of all objects is compared with that before")

SPECS["T01"] = dict(
    harness=[dict(name="T01", sources=["dataset/t01.cpp"], upto="dataset")],
    rule="a case is all days of a century in a unit, all values of a variable in all layouts, or all data arrays and datasets with a first "
         "coordinate; non-trivial: at least one element",
    bounds={"quick": "datetimes in 6 units (ns, us, ms, s, min, h): every day of the years 1000 to 9999 (as far as the unit reaches) at 5 times of the day "
                     "(us, ms, min, h: 2), 24000 steps each around 6 days, ends of the range, 11 units without dates; variables of 12 kinds (types, variances, "
                     "units) x 3 sets of values x 31 shapes x 6 memory layouts and broadcast; data arrays of 6 shapes with all pairs of coordinates (all dimensions and edges, "
                     "aligned or not), masks, attributes, names, 4 types, and as items of a dataset",
            "thorough": "5 times of the day in all units"},
    technique="model checking: exhaustive enumeration of bounded objects and datetimes on the real code, compared with a rendering of "
              "a plain model of their content and with calendar arithmetic")

SPECS["Z01"] = dict(
    harness=[dict(name="Z01", sources=["dataset/z01.cpp"], upto="dataset")],
    rule="a case is a prototype (type, variances, unit, shape, layout, or bins of given sizes) with all creation operations, fill values and target "
         "shapes, or all objects of a kind with their reported sizes; non-trivial: created from a prototype, or with a size",
    bounds={"quick": "10 types x 3 units x 25 shapes of up to 3 dimensions x 6 memory layouts (all for one unit, 2 for the others), 6 fill values, 5 target shapes, resizing each "
                     "dimension to 0, 1, 2, 5; all sizes 0..2 of up to 3 bins and 0..1 of 2x2 bins, 4 kinds of buffers, 4 arrangements in the buffer, whole and part, 4 "
                     "new sizes in 4 layouts; sizes of all of these, of slices of bins, and of data arrays and datasets with up to 2 masks, 3 coordinates, 2 attributes, 3 items",
            "thorough": "more shapes, all layouts for all units, sizes 0..2 of 2x2 bins, 0..4 for reported sizes"},
    technique="model checking: exhaustive enumeration of bounded descriptions and prototypes on the real code, compared with plain arrays; "
              "every element of a created object is then written, and all others and the prototype read")

#!/usr/bin/env python3
"""Writes properties.jsonl (the single source is this table)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))

prop("D01", "Dimension labels stay a bijection under concurrent creation",
 "Creating dimension labels from any number of threads, in any interleaving, gives equal labels to equal names and different labels to different names, and every label reports the name it was created from, at the time of creation and forever after. No interleaving may deadlock or access the shared label registry without synchronisation. Built-in names always give the built-in labels.",
 ["schedules", "histories"], "all interleavings (at every lock operation) of 2 threads x up to 2 label creations/lookups and of 3 threads x 1, over names that collide, starting from empty and non-empty registries",
 "The tests create labels from one thread only; the race needs a preemption between looking up and inserting.",
 ["lib/units/dim.cpp", "lib/units/include/scipp/units/dim.h"],
 [("process-wide registry guarded by a reader/writer lock", "lib/units/dim.cpp Dim::Dim(const std::string&)"), ("reverse lookup", "lib/units/dim.cpp Dim::name")],
 ["Dim::id, Dim::name, Dim::operator=="], [("custom_ids", "name -> id of labels created at run time", "lib/units/dim.cpp")])

prop("U01", "Unit arithmetic follows dimensional analysis and rejects bad units",
 "The unit of a product, quotient, integer power or square root is the product, quotient, power or root of the operand units, and these laws compose (commutative, associative, x/x dimensionless, (x**n) root consistent); addition, subtraction, modulo, comparison-compatible rounding and trigonometric rules accept exactly the units the documentation names (equal units, counts-like, angles) and reject all others. The special unit 'none' is distinct from dimensionless and only combines with itself in the way documented. A unit operation that is rejected raises a unit error and leaves its operand unchanged.",
 ["inputs", "programs"], "all programs of unit operations up to depth 3 over an alphabet of base units, scaled units, counts, angles, dimensionless and none",
 "Tests sample a few unit pairs; the laws quantify over all combinations and chains.",
 ["lib/units/unit.cpp", "lib/units/include/scipp/units/unit.h"],
 [("operators with none and count checks", "lib/units/unit.cpp")], ["Unit operators", "isCounts/isCountDensity/has_same_base"])

prop("U02", "Unit conversion scales values correctly and never corrupts them",
 "Converting values between two compatible units multiplies every value (variances by the square) with the exact ratio of the units, rounding integers and datetimes to nearest, for every element type, memory layout and binned data; converting to the same unit changes nothing. Conversion to an incompatible unit, to or from 'none', or of datetimes to units of a day or more is rejected. The input is never modified.",
 ["inputs"], "all pairs of a unit alphabet x all supported element types x a boundary-value alphabet x layouts",
 "Tests use a handful of unit pairs and values; rounding and scale selection depend on the pair and dtype.",
 ["lib/variable/to_unit.cpp", "lib/core/include/scipp/core/element/to_unit.h", "lib/dataset/to_unit.cpp"],
 [("scale selection and rounding", "lib/variable/to_unit.cpp"), ("safe_cast", "lib/core/include/scipp/core/element/to_unit.h")], ["to_unit"])

prop("C01", "Dimension sets behave as ordered label-to-extent maps",
 "Every sequence of adding, resizing, erasing, renaming, relabelling, merging, intersecting, transposing and slicing dimension sets yields exactly the labels, extents, order and volume that an ordered map would, never containing a duplicate label. An operation on a missing or conflicting label or an invalid extent raises an error and leaves the set unchanged. Two sets compare equal exactly when labels and extents agree (in order for dimensions, in any order for sizes).",
 ["histories"], "all operation sequences up to a depth over 3-4 labels and extents 0..3, from every reachable state",
 "Tests apply single operations to fixed objects; the guarantee is about arbitrary histories including failing ones.",
 ["lib/core/dimensions.cpp", "lib/core/sizes.cpp", "lib/core/include/scipp/core/sizes.h", "lib/core/include/scipp/core/dimensions.h", "lib/core/rename.h", "lib/core/slice.cpp"],
 [("small_stable_map", "lib/core/sizes.cpp"), ("Dimensions merge/intersection/fold", "lib/core/dimensions.cpp")], ["Dimensions, Sizes API"])

prop("C02", "Metadata dictionaries are insertion-ordered maps",
 "Every sequence of insert, overwrite, erase, extract, lookup, move, reserve and clear on a coordinate, mask or attribute dictionary yields exactly the content and iteration order of an insertion-ordered map; extracting or erasing one entry never affects another. Looking up or removing a missing key raises and changes nothing. Iterating while the dictionary is modified is detected and raises instead of reading stale entries.",
 ["histories"], "all operation sequences up to a depth over 3-4 keys, from every reachable state, including iterators held across modifications",
 "Tests exercise few fixed histories.",
 ["lib/core/include/scipp/core/dict.h", "lib/core/dict.cpp"],
 [("parallel key/value vectors", "lib/core/include/scipp/core/dict.h Dict"), ("iterator invalidation guard", "lib/core/dict.cpp")], ["core::Dict API"])

prop("V01", "Element iteration visits exactly the right elements in order",
 "For any combination of up to several operands with any shape, strides (contiguous, transposed, sliced, strided, broadcast) and with or without binning, joint iteration visits each index of the iteration space exactly once in row-major order and pairs the memory locations of the operands correctly. Jumping to any position, computing a distance, or iterating a sub-range gives the same sequence as stepping from the start, including for empty dimensions and empty bins.",
 ["inputs"], "all shapes up to 4 dimensions with small extents including 0, all stride patterns obtainable by transposing, slicing and broadcasting, 1-4 operands, all small bin layouts",
 "Tests cover selected shapes; iteration collapses dimensions differently for every shape/stride combination.",
 ["lib/core/multi_index.cpp", "lib/core/include/scipp/core/multi_index.h", "lib/core/view_index.cpp", "lib/core/include/scipp/core/view_index.h", "lib/core/strides.cpp", "lib/common/include/scipp/common/index_composition.h", "lib/core/include/scipp/core/element_array_view.h", "lib/core/element_array_view.cpp"],
 [("dimension flattening and carry propagation", "lib/core/include/scipp/core/multi_index.h"), ("view iteration", "lib/core/include/scipp/core/view_index.h")], ["MultiIndex, ViewIndex, ElementArrayView"])

prop("V02", "Views address exactly the selected elements of the shared buffer",
 "Any chain of slicing (points, ranges, strides), transposing, broadcasting, folding, flattening, squeezing and renaming a variable yields the elements, in the order, that the same chain applied to an abstract labelled array yields. Where the operation returns a view, writes through it change exactly the selected elements of the original and nothing else; where it returns a copy, writes do not propagate. An invalid operation raises and never returns a view outside the buffer.",
 ["histories", "inputs"], "all chains of view operations up to a depth from 1-3 dimensional variables, over all small arguments including invalid ones",
 "Tests check single view operations; offsets and strides compose along chains.",
 ["lib/variable/variable.cpp", "lib/variable/shape.cpp", "lib/core/slice.cpp", "lib/core/strides.cpp", "lib/core/element_array_view.cpp"],
 [("offset/stride arithmetic", "lib/variable/variable.cpp slice, transpose, broadcast, fold"), ("flatten", "lib/variable/shape.cpp")], ["Variable values"])

prop("V03", "Copies are independent, views share, and read-only is enforced",
 "Copying a variable, data array, dataset or binned array yields an object equal to the original and sharing no modifiable storage with it, whereas slices and assignments share as documented. Through any chain of slicing, item access and shallow copying, data that the documentation marks read-only (metadata of a slice, coordinates of a dataset item, broadcast views) cannot be modified: attempts raise and change nothing. Modifying the result of an operation documented to return new data never changes its inputs.",
 ["histories"], "all chains up to a depth of slice / item access / copy / shallow copy / write over small data arrays and datasets with dense and binned data",
 "Sharing bugs appear only for particular chains and are invisible to tests that compare values of one object.",
 ["lib/variable/variable.cpp", "lib/dataset/data_array.cpp", "lib/dataset/dataset.cpp", "lib/dataset/sized_dict.cpp", "lib/dataset/operations.cpp", "lib/variable/operations.cpp", "lib/variable/bins.cpp"],
 [("read-only flags", "lib/dataset/sized_dict.cpp, lib/variable/variable.cpp"), ("deep copy", "lib/dataset/operations.cpp, lib/variable/operations.cpp")], ["setters, is_readonly"])

prop("O01", "Elementwise operations match by label and ignore memory layout",
 "For every arithmetic, comparison, logical, mathematical and selection operation, output element i equals the scalar operation applied to the operand elements with the same labels, where operands are matched and broadcast by dimension label. The result does not depend on the operands' dimension order, strides, offsets or whether they are dense or binned, and has the documented element type and unit. Operands with conflicting extents or unsupported element types are rejected.",
 ["inputs"], "all operations x all supported element-type pairs x all pairs of operand layouts (contiguous, transposed, sliced, strided, broadcast, empty, binned) over small shapes and a value alphabet with special values",
 "Tests fix the layout and dtype for each operation; the loops are specialised per layout class.",
 ["lib/variable/include/scipp/variable/transform.h", "lib/core/include/scipp/core/element/arithmetic.h", "lib/core/include/scipp/core/element/comparison.h", "lib/core/include/scipp/core/element/math.h", "lib/core/include/scipp/core/element/logical.h", "lib/core/include/scipp/core/element/trigonometry.h", "lib/core/include/scipp/core/element/util.h", "lib/variable/arithmetic.cpp", "lib/variable/pow.cpp", "lib/variable/astype.cpp"],
 [("transform kernels with inner-stride dispatch", "lib/variable/include/scipp/variable/transform.h")], ["Variable operators and free functions"])

prop("O02", "Variances are propagated by first-order error propagation",
 "Every operation accepting variances returns the variance given by linear error propagation of the uncorrelated operands (with a value operand treated as exact), independent of layout, element type or in-place use; combining a variable with itself is treated as fully correlated. Operations that cannot propagate variances, and implicit broadcasts of variances, are rejected instead of silently returning wrong uncertainties. Values are never affected by the presence of variances.",
 ["inputs"], "all variance-capable operations x which operands carry variances x value/variance alphabets x layouts x broadcasting patterns",
 "Tests check selected operations and values.",
 ["lib/core/include/scipp/core/value_and_variance.h", "lib/variable/include/scipp/variable/transform.h", "lib/core/include/scipp/core/transform_common.h", "lib/variable/arithmetic.cpp"],
 [("ValueAndVariance operators", "lib/core/include/scipp/core/value_and_variance.h"), ("variance broadcast check", "lib/variable/include/scipp/variable/transform.h")], ["Variable::variances"])

prop("O03", "In-place operations are correct when operands alias the target",
 "Modifying a variable in place with an operand that is any view of the same data (slice, transpose, shifted, strided or broadcast selection) gives the same result as using an independent copy of that operand. This also holds when assigning to a slice and for data array and dataset operands that share their data with the target.",
 ["inputs"], "all pairs of views of one small buffer as target and operand, for all in-place operations and copies",
 "Tests cover the trivial self-operand; the result depends on the overlap pattern.",
 ["lib/variable/include/scipp/variable/transform.h", "lib/core/element_array_view.cpp", "lib/common/include/scipp/common/index_composition.h", "lib/dataset/arithmetic.cpp"],
 [("overlap detection with delayed copy", "lib/core/element_array_view.cpp overlaps; transform.h in_place"), ("delayed item", "lib/dataset/arithmetic.cpp apply_with_delay")], ["in-place operators, copy, setSlice"])

prop("O04", "Multithreaded execution is race-free and partition-independent",
 "Whatever way the parallel runtime partitions and orders a parallel loop, the result is the same as that of a serial run, apart from documented floating-point rounding in reductions. No two concurrently executed parts of a parallel loop access the same memory location with a write unless synchronised.",
 ["schedules", "configurations"], "all partitions of small iteration spaces (down to single elements) and all chunk orders up to a bound, for every loop that runs in parallel: elementwise, in-place, accumulation along outer and inner dimensions, rebin, group-by, binning, histogramming, sorting",
 "Tests run whatever schedule the machine happens to produce, and small inputs are never split.",
 ["lib/variable/include/scipp/variable/transform.h", "lib/variable/include/scipp/variable/accumulate.h", "lib/variable/rebin.cpp", "lib/dataset/groupby.cpp", "lib/dataset/sort.cpp", "lib/core/include/scipp/core/parallel-tbb.h", "lib/core/include/scipp/core/element_array.h"],
 [("parallel_for over sub-ranges", "lib/variable/include/scipp/variable/transform.h, accumulate.h"), ("partial results per thread", "lib/variable/include/scipp/variable/accumulate.h")], ["results of all operations"])

prop("O05", "Operations that fail leave their operands unchanged",
 "If an in-place arithmetic operation, a slice assignment, an insertion, a rename, or a metadata update on a variable, data array or dataset raises an error (bad dimension, unit, type, variances, read-only, mismatching coordinates or masks), then every operand and every item of the dataset has the same content, unit and metadata as before. In particular a dataset operation that fails for one item has not modified any other item.",
 ["fault_sequences", "histories"], "all in-place operations and setters x all error causes x the position of the offending item",
 "Tests check that an exception is thrown for selected cases, seldom that nothing was modified.",
 ["lib/dataset/arithmetic.cpp", "lib/dataset/data_array.cpp", "lib/dataset/dataset.cpp", "lib/dataset/sized_dict.cpp", "lib/variable/variable.cpp", "lib/variable/include/scipp/variable/transform.h"],
 [("dry run before modification", "lib/dataset/arithmetic.cpp, transform.h dry_run"), ("validateSlice", "lib/dataset/sized_dict.cpp, data_array.cpp")], ["state before and after"])

prop("O06", "Reductions equal the mathematical fold over the reduced labels",
 "sum, mean, min, max, all, any and their nan-ignoring variants over one dimension or all dimensions equal the corresponding fold of exactly the elements along those labels, for every element type, layout and shape, with the documented identity for empty input and the documented result type and unit. The nan-variants ignore exactly the NaN elements. Cumulative sums equal the running fold, and the fold of variances is the sum of variances.",
 ["inputs"], "all reductions x dims x element types x layouts x shapes with extents 0..3 over value alphabets with NaN and infinities",
 "Tests sample shapes and layouts; the accumulate loop is specialised per stride pattern and size.",
 ["lib/variable/reduction.cpp", "lib/variable/include/scipp/variable/accumulate.h", "lib/variable/cumulative.cpp", "lib/core/include/scipp/core/element/cumulative.h", "lib/core/include/scipp/core/element/comparison.h", "lib/variable/creation.cpp"],
 [("accumulate_in_place", "lib/variable/include/scipp/variable/accumulate.h")], ["reduction functions"])

prop("O07", "Sorting yields the ordered permutation and moves everything along",
 "Sorting a variable, data array or dataset, by value or by a coordinate, yields a permutation of the input in which the key is ordered as requested (NaN last when ascending), and every data value, variance, coordinate, mask and bin content belonging to a position moves together with its key. Sortedness predicates answer true exactly for sequences ordered in the requested direction.",
 ["inputs"], "all key sequences up to a length over small alphabets per key type (with duplicates, NaN), both orders, 1-2 dimensional data, dense and binned, with metadata",
 "Tests use one or two key sequences.",
 ["lib/dataset/sort.cpp", "lib/variable/sort.cpp", "lib/core/include/scipp/core/element/sort.h", "lib/dataset/extract.cpp", "lib/variable/util.cpp", "lib/core/include/scipp/core/element/util.h"],
 [("indices_for_sorting + extract_ranges", "lib/dataset/sort.cpp, extract.cpp")], ["sort, issorted, allsorted"])

prop("O08", "Concatenation, fold and flatten are lossless and inverse to slicing",
 "Concatenating data arrays or variables along a dimension and slicing the result returns each input with its data, coordinates (bin edges joined), and masks; folding then flattening, or flattening then folding, returns the original data and metadata values at every position. Coordinates that cannot be represented (non-matching bin edges) are rejected or dropped as documented, never silently altered.",
 ["inputs"], "all small inputs up to 2 dimensions, 1-3 pieces, with dimension, bin-edge, scalar and 2-D coordinates and masks, dense and binned",
 "Tests check fixed examples of each operation.",
 ["lib/dataset/shape.cpp", "lib/variable/shape.cpp"],
 [("concat_maps, join_edges", "lib/dataset/shape.cpp"), ("fold_bin_edge, flatten_bin_edge", "lib/dataset/shape.cpp")], ["concat, fold, flatten, squeeze, transpose, resize"])

prop("O09", "Label-based selection returns exactly the matching elements",
 "Selecting by coordinate value returns the unique element with that value, or the bin containing it for bin edges; selecting by value range returns exactly the points in the half-open interval, or all bins overlapping it, for ascending and descending coordinates. Boolean selection returns exactly the elements where the condition is true, in order, with their metadata. Selections that are ambiguous, out of range, of wrong unit or on non-monotonic coordinates raise.",
 ["inputs"], "all monotonic and non-monotonic coordinates up to length 4 over a small alphabet, points and edges, all query values and ranges including absent ones; all boolean conditions up to length 5",
 "Tests check selected values; off-by-one errors depend on the relation of query and coordinate.",
 ["lib/variable/slice.cpp", "lib/dataset/slice.cpp", "lib/dataset/extract.cpp", "lib/dataset/data_array.cpp", "lib/dataset/include/scipp/dataset/sized_dict.h"],
 [("get_slice_params", "lib/variable/slice.cpp"), ("extract_impl", "lib/dataset/extract.cpp")], ["slice, extract"])

prop("O10", "Rebinning conserves counts and follows the overlap rule",
 "Rebinning distributes the content of each old bin over the new bins in proportion to the overlap of the bins, for ascending and descending edges, any dimension position and layout, so the total over a range covered by both is conserved; masked input bins contribute nothing. Unsorted edges, missing edges and mismatching units are rejected.",
 ["inputs"], "all strictly monotonic old and new edge sequences over a small grid, both directions, 1-2 dimensional data with inner and outer rebinned dimension, element types, masks",
 "Tests use a few edge pairs; there are separate code paths for inner and outer dimensions.",
 ["lib/variable/rebin.cpp", "lib/core/include/scipp/core/element/rebin.h", "lib/dataset/rebin.cpp"],
 [("element kernel", "lib/core/include/scipp/core/element/rebin.h"), ("rebin_non_inner", "lib/variable/rebin.cpp")], ["rebin"])

prop("O11", "Counts and densities are converted by the exact bin widths",
 "Converting counts to a density divides every value (and the standard deviation) by the width of its bin along each given dimension, converting back multiplies by it, and the unit changes accordingly, so both together return the original. Data that is no density (or no counts) is returned as it is; data that looks like a density already, dimensionless edges, missing edges and coordinates that are not bin edges are rejected. Coordinates, masks, attributes and names are kept. The input, a data array or a dataset, is never modified and does not share its data or masks with the output.",
 ["inputs"], "all combinations of up to 3 dimensions, units, lists of dimensions, kinds of edges, element types, layouts, dense and binned data; datasets of up to three items",
 "Tests convert one dataset with one pair of units.",
 ["lib/dataset/counts.cpp", "lib/units/unit.cpp"],
 [("toDensity, fromDensity", "lib/dataset/counts.cpp"), ("isCountDensity", "lib/units/unit.cpp")], ["counts_to_density, density_to_counts"])

prop("O12", "Order, spacing and bin-edge queries answer for every line",
 "issorted, islinspace and isarange answer, for every combination of the other dimensions, whether the values along a dimension never decrease (or increase), are evenly spaced and increasing, or are consecutive integers; allsorted answers for all of them at once. NaN is neither in order nor evenly spaced. The answer depends on no memory layout. linspace begins and ends exactly at the given values and is evenly spaced. is_edges, is_histogram and edge_dimension recognise bin edges: exactly one longer than the data along that dimension (or two long if the data has no such dimension). Element types, units and variances for which there is no answer are rejected.",
 ["inputs"], "all value sequences up to a length over small alphabets with NaN and infinity, all pairs of lines, one changed step in long lines, all element types and layouts; all shapes of coordinates with up to two dimensions",
 "Tests use one sequence per case; binning, slicing, rebinning and lookup trust the answer and index out of bounds or miscount when it is wrong.",
 ["lib/variable/util.cpp", "lib/core/include/scipp/core/element/util.h", "lib/common/include/scipp/common/numeric.h", "lib/core/sizes.cpp", "lib/dataset/histogram.cpp", "lib/dataset/sized_dict.cpp"],
 [("issorted, islinspace, isarange, linspace", "lib/variable/util.cpp"), ("is_edges", "lib/core/sizes.cpp"), ("edge_dimensions, is_histogram", "lib/dataset/histogram.cpp")], ["issorted, allsorted, islinspace, linspace, is_edges"])

prop("M01", "Data arrays and datasets stay coherent under every history",
 "After any sequence of inserting, replacing, deleting and extracting items, coordinates, masks and attributes, setting data, slicing, renaming dimensions and shallow copying, every coordinate, mask and attribute fits the dimensions of its owner (exactly, or one longer along one dimension as bin edges) and all items of a dataset have the dataset's dimensions. Content equals that of a plain reference model of the same history. Invalid steps raise and change nothing.",
 ["histories"], "all operation sequences up to a depth over a small alphabet of fitting, bin-edge, scalar and ill-fitting values, from every reachable state",
 "Tests check single operations from hand-made states.",
 ["lib/dataset/sized_dict.cpp", "lib/dataset/data_array.cpp", "lib/dataset/dataset.cpp", "lib/dataset/include/scipp/dataset/sized_dict.h"],
 [("SizedDict::set validation", "lib/dataset/sized_dict.cpp"), ("expect_matching_item_dims", "lib/dataset/dataset.cpp")], ["DataArray and Dataset API"])

prop("M02", "Operations combine coordinates, masks and items as documented",
 "In operations between data arrays or datasets, aligned coordinates present in both must match (NaN equal to NaN) or the operation is rejected, an aligned coordinate takes precedence over an unaligned one, unaligned ones are kept only if equal in both operands; masks of the same name are combined with logical or, without touching the operands' masks; datasets combine item by name. In-place operations additionally require the operand's coordinates to be present in the target. Slicing by a point turns the dimension's coordinates into unaligned ones.",
 ["inputs"], "all combinations per name of {absent, aligned, unaligned} x {equal, different} coordinates and {absent, equal, different} masks in both operands, for binary and in-place operations between data arrays, datasets and variables",
 "Tests cover individual combinations.",
 ["lib/dataset/sized_dict.cpp", "lib/dataset/dataset.cpp", "lib/dataset/arithmetic.cpp", "lib/dataset/except.cpp", "lib/dataset/include/scipp/dataset/dataset.h"],
 [("union_, intersection, union_or, union_or_in_place", "lib/dataset/sized_dict.cpp, dataset.cpp"), ("coords_are_superset", "lib/dataset/except.cpp")], ["binary operators"])

prop("M03", "Masked elements never contribute to reductions or binning",
 "A reduction, group-by reduction, rebinning, binning or histogramming over a dimension gives the result that would be obtained if the elements masked along that dimension were not there, whatever values they hold (including NaN). Masks that do not depend on the reduced dimension are preserved unchanged, and those that do are dropped. The inputs' data and masks are not modified.",
 ["inputs"], "all mask patterns (1-D, 2-D, several masks, event masks) on small data x all reductions x reduced dimensions",
 "Tests use single mask patterns.",
 ["lib/dataset/variable_reduction.cpp", "lib/dataset/include/scipp/dataset/sized_dict.h", "lib/dataset/operations.cpp", "lib/dataset/dataset_operations_common.h", "lib/dataset/bins.cpp", "lib/dataset/groupby.cpp", "lib/dataset/mean.cpp", "lib/dataset/nanmean.cpp"],
 [("irreducible_mask, masked_data, hide_masked", "lib/dataset/include/scipp/dataset/sized_dict.h, operations.cpp, bins_view")], ["reductions of DataArray and Dataset"])

prop("M04", "Equality distinguishes exactly the objects that differ",
 "Variables, data arrays, datasets and binned data compare equal exactly if dimensions, element type, unit, values, variances, coordinates and their alignment, masks, attributes and items are equal, independent of memory layout and of the insertion order of metadata; equality is symmetric, and a changed single element or metadata entry makes objects unequal. The nan-tolerant comparison differs only in treating NaN at the same position as equal.",
 ["inputs"], "all pairs out of a family of objects that differ in at most one respect, in all layouts",
 "Tests compare selected pairs.",
 ["lib/variable/variable.cpp", "lib/variable/include/scipp/variable/element_array_model.h", "lib/variable/include/scipp/variable/bin_array_model.h", "lib/variable/include/scipp/variable/structure_array_model.h", "lib/dataset/data_array.cpp", "lib/dataset/dataset.cpp", "lib/dataset/sized_dict.cpp"],
 [("operator== and equals_nan", "listed files")], ["==, equals_nan"])

prop("B01", "Binning and grouping put every event in exactly the right bin",
 "Binning or grouping a table of events, or already binned data, by any set of edges and group labels yields bins such that every event whose coordinates fall in a bin's half-open intervals and match its labels is in that bin exactly once, with its data, variances and remaining coordinates, in the original relative order; all other events are dropped and nothing is duplicated or invented. The result is independent of the algorithmic path chosen (regular or irregular edges, consecutive or arbitrary labels, few or many bins, pre-sorted bin coordinates) and of earlier binning along the same dimension.",
 ["inputs"], "all event tables up to a size over a coordinate alphabet that includes every edge value and its neighbours x edge/label sets (regular, irregular, consecutive, arbitrary, none) x prior binning x erased dimensions; plus representatives at every size threshold in the code",
 "Tests use particular event lists; correctness depends on the joint pattern of events, edges and existing bins.",
 ["lib/dataset/bin.cpp", "lib/dataset/bin_detail.cpp", "lib/variable/bin_detail.cpp", "lib/core/include/scipp/core/element/bin.h", "lib/core/include/scipp/core/element/bin_detail.h", "lib/core/include/scipp/core/element/map_to_bins.h", "lib/core/subbin_sizes.cpp", "lib/core/include/scipp/core/histogram.h", "lib/common/include/scipp/common/numeric.h"],
 [("TargetBinBuilder, Mapper", "lib/dataset/bin.cpp"), ("SubbinSizes", "lib/core/subbin_sizes.cpp"), ("kernels", "lib/core/include/scipp/core/element/")], ["bin, group"])

prop("B02", "Histogramming counts each event once and agrees with binning",
 "The histogram of an event table or of binned data holds in each bin the sum of weights (and of variances) of exactly the events whose coordinate lies in the half-open bin interval, for regular and irregular edges and every coordinate and weight type; it equals binning followed by summing each bin. Existing bins along the same dimension and the size of the input do not matter.",
 ["inputs"], "all event lists up to a size over a coordinate alphabet at, between and outside the edges x edge sets x element types x dense/binned layouts",
 "Tests use selected event lists; regular edges use a separate arithmetic path prone to rounding.",
 ["lib/dataset/histogram.cpp", "lib/dataset/bins.cpp", "lib/core/include/scipp/core/element/histogram.h", "lib/core/include/scipp/core/histogram.h", "lib/common/include/scipp/common/numeric.h"],
 [("histogram kernel", "lib/core/include/scipp/core/element/histogram.h"), ("get_bin", "lib/core/include/scipp/core/histogram.h")], ["histogram"])

prop("B03", "Binned data operations act on exactly the events in each bin",
 "Slicing, copying, concatenating, appending, comparing, reducing bins and applying elementwise operations to binned data act on precisely the events belonging to each bin, whatever the bin layout in the underlying buffer (gaps, arbitrary order, empty bins, slices, transposes); events outside the selected bins are neither read into the result nor modified. Concatenating bins preserves all events of all inputs in order. Lookup tables applied to events (map, scale, lookup of previous) give each event the function value at its coordinate.",
 ["inputs", "histories"], "all bin layouts of up to 3 bins over a buffer of up to 5 events (with gaps, empty and permuted bins) x all operations x slices",
 "Tests use contiguous, ordered bins mostly.",
 ["lib/variable/bins.cpp", "lib/dataset/bins.cpp", "lib/variable/bin_array_variable.cpp", "lib/variable/include/scipp/variable/bin_array_model.h", "lib/dataset/include/scipp/dataset/bins_view.h", "lib/core/include/scipp/core/element/event_operations.h", "lib/variable/cumulative.cpp", "lib/dataset/variable_instantiate_bin_elements.cpp"],
 [("BinArrayModel, make_bins, copy_slices", "listed files")], ["bins operations"])

prop("B04", "Group-by partitions the data and reduces each group correctly",
 "Grouping by a coordinate or by bins assigns every position to the one group with its key value (NaN keys forming one group; positions outside all bins to none), groups are in ascending key order, and each group reduction equals that reduction over the positions of the group. Concatenating bins within groups keeps all events. The result does not depend on whether equal keys are adjacent.",
 ["inputs"], "all key sequences up to length 5 over a small alphabet per key type (with NaN) x bins x reductions x 1-2 dimensional data, masks, datasets",
 "Tests use one or two key sequences.",
 ["lib/dataset/groupby.cpp", "lib/dataset/include/scipp/dataset/groupby.h", "lib/variable/reduction.cpp", "lib/dataset/bin.cpp"],
 [("MakeGroups, MakeBinGroups, reduce_", "lib/dataset/groupby.cpp")], ["groupby"])

prop("S01", "Spatial transforms compose and apply consistently",
 "Applying a composition of rotations, translations, scalings and affine transforms to a vector equals applying them one after the other; composition is associative and a transform composed with its inverse is the identity, for every mix of transform types. Element access to components (x, y, z, matrix entries) addresses exactly that component.",
 ["inputs", "programs"], "all compositions up to length 3 over an alphabet of exactly representable transforms of each type, applied to an alphabet of vectors; all components",
 "Tests check selected pairs of transform types.",
 ["lib/core/include/scipp/core/spatial_transforms.h", "lib/core/include/scipp/core/element/math.h", "lib/core/include/scipp/core/element/arithmetic.h", "lib/variable/inv.cpp", "lib/variable/structures.cpp", "lib/variable/include/scipp/variable/structure_array_model.h"],
 [("operators between transform types", "lib/core/include/scipp/core/spatial_transforms.h")], ["Variable operators on spatial dtypes"])

prop("N01", "Numeric helpers are exact over their integer and edge domains",
 "Integer floor division and modulo satisfy a == (a // b) * b + a % b with the result's sign following the divisor; integer powers equal repeated multiplication; checks for regular spacing and consecutive ranges answer true exactly for such sequences; conversion between flat and multi-dimensional indices is a bijection for every shape.",
 ["inputs"], "all small integers of both signs for every integer type including the extremes, all sequences up to length 5 over a small alphabet, all shapes up to 4 dimensions with extents up to 4",
 "Tests check a few numbers.",
 ["lib/common/include/scipp/common/numeric.h", "lib/common/include/scipp/common/index_composition.h", "lib/core/include/scipp/core/element/arithmetic.h", "lib/core/include/scipp/core/element/math.h"],
 [("numeric::pow, isarange, islinspace", "lib/common/include/scipp/common/numeric.h"), ("flat_index, extract_indices", "lib/common/include/scipp/common/index_composition.h")], ["numeric functions"])

prop("E01", "Element buffers own their memory exactly once",
 "Every sequence of constructing, copying, moving, assigning, resizing, resetting and destroying element buffers leaves each buffer with the content and size a value-semantic array would have; copies are deep, self-assignment is harmless, each allocation is released exactly once and every element is constructed before and destroyed after use.",
 ["histories"], "all operation sequences up to a depth over 2-3 buffers with sizes 0..3, with element types that count their life times",
 "Tests check single operations.",
 ["lib/core/include/scipp/core/element_array.h", "lib/core/include/scipp/core/aligned_allocator.h"],
 [("unique_ptr plus size with default-init tag", "lib/core/include/scipp/core/element_array.h")], ["element_array API"])

prop("T01", "Text representations show the actual content of objects",
 "The text of a datetime is its exact date and time of the proleptic Gregorian calendar in the precision of its unit, for every value, also before 1970 and beyond the range of the system clock, and units without dates are rejected. The text of a variable, data array or dataset names its dimensions, sizes, type and unit and lists the elements (the first and last ones if there are many) in the order of the dimensions, independent of the memory layout; it lists every coordinate, mask, attribute and item exactly once with its name, and marks alignment and bin edges correctly. Making text never fails for valid objects and changes nothing.",
 ["inputs"], "all days in years 1000-9999 at several times and in all units, steps around special days, the ends of the range; all variables of all types up to 3 dimensions in all layouts; all small data arrays and datasets with all dimensions and edges of metadata",
 "Tests compare the text of a few objects and dates after 1970.",
 ["lib/core/string.cpp", "lib/core/include/scipp/core/array_to_string.h", "lib/variable/string.cpp", "lib/variable/include/scipp/variable/string.h", "lib/dataset/string.cpp"],
 [("to_iso_date", "lib/core/string.cpp"), ("array_to_string", "lib/core/include/scipp/core/array_to_string.h"), ("format_variable", "lib/variable/string.cpp"), ("do_to_string", "lib/dataset/string.cpp")], ["to_string, to_iso_date"])

prop("Z01", "Created objects are as requested and reported sizes add up",
 "Creating a variable from a description or from a prototype (empty, ones, empty_like, special_like, dense_special_like, zero_like, resize) gives the dimensions, element type, unit, presence of variances and values that were asked for, for every type, shape and memory layout of the prototype: zeros, true, false, or the largest or lowest value of the type. New bins lie one after the other with the requested sizes (resize to given bin sizes reserves the space and leaves them empty), with a buffer that has the same type, unit, dimension, coords and masks as that of the prototype. Created objects are writable, each element has memory of its own and none is shared with the prototype; combinations that make no sense are rejected. The reported size of an object accounts for each visible (or underlying) element exactly once, wherever the elements lie in memory: a multiple of the number of elements, of visible events for binned data, and the sum of the parts for data arrays and datasets.",
 ["inputs"], "all types, fill values and small shapes in all layouts, all small bin sizes and arrangements, data arrays and datasets with up to 2 masks, 3 coords, 2 attrs and 3 items",
 "Tests create a few contiguous examples.",
 ["lib/variable/creation.cpp", "lib/variable/shape.cpp", "lib/variable/include/scipp/variable/bin_array_variable.tcc", "lib/dataset/util.cpp", "lib/core/include/scipp/core/element/creation.h"],
 [("special_like, empty_like", "lib/variable/creation.cpp"), ("BinVariableMaker::empty_like, BinArrayModel::makeDefaultFromParent", "lib/variable/include/scipp/variable/bin_array_variable.tcc"), ("size_of", "lib/dataset/util.cpp")], ["sc.empty_like, zeros_like, size_of"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    assert len({p["id"] for p in P}) == len(P)
    for p in P: assert len(p["title"]) <= 80, p["title"]
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))

"""Writes known_findings.json (the list lives here)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []


def known(pid, fid, what, repro):
    F.append({"property": pid, "id": fid, "status": "known", "what": what, "repro": repro})


def fixed(pid, subject, what):
    import subprocess
    out = subprocess.run(["git", "-C", os.environ.get("REPO", "/repo"), "log", "--format=%h %s"], capture_output=True, text=True).stdout
    hits = [x.split(" ", 1)[0] for x in out.splitlines() if x.split(" ", 1)[1] == "fix: " + subject]
    assert len(hits) == 1, (subject, hits)
    F.append({"property": pid, "id": hits[0], "status": "fixed",
              "what": "fixed: property=%s %s %s" % (pid, hits[0], what)})


known("C03", "K03", "a nested slice with missing values, applied to an array with a missing list where the slice has a "
      "non-empty list, takes the following lists' items from the wrong slice lists (required by tests/test_0315-integerindex.py)",
      "import awkward as ak\n"
      "a = ak.Array([[[0, 1], None], [[3, 4], [5]]])\n"
      "c = ak.Array([[[0, None], [1, 1]], [[0, 1], [0]]])\n"
      "assert ak.to_list(a[c]) == [[[0, None], None], [[3, 4], [5]]]\n")
known("C05", "K05", "argmin/argmax along an axis that is more than one list level above the numbers do not count lists that "
      "ended (or were missing) at the levels in between (required by tests/test_0835-datetime-type.py)",
      "import awkward as ak\n"
      "assert ak.to_list(ak.argmin(ak.Array([[[2]], [], [[1]]]), axis=0)) == [[2]]\n")
known("C06", "K06", "ak.var, ak.std, ak.covar, ak.corr and ak.softmax along the innermost axis of lists of variable length refuse "
      "keepdims=True, because reducers return variable-length lists of one item, which do not broadcast with the original (required by "
      "tests/test_0447-preserve-regularness-in-reduce.py)",
      "import awkward as ak\n"
      "assert ak.to_list(ak.var(ak.Array([[1.0, 3.0], [2.0]]), axis=-1, keepdims=True)) == [[1.0], [0.0]]\n")
known("C11", "K11", "ak.cartesian of three or more arrays with axis=0 and only some of them nested groups the tuples by the length "
      "of the next array alone (required by tests/test_0078-argcross-and-cross.py)",
      "import awkward as ak\n"
      "assert ak.to_list(ak.cartesian([[1], [2], [3, 4]], axis=0, nested=[0])) == [[(1, 2, 3), (1, 2, 4)]]\n")

fixed("C01", "read datetime64/timedelta64 scalars as signed 64-bit integers",
      "elements of datetime64/timedelta64 arrays before the epoch came out as huge or failing values")
fixed("C01", "to_list of multidimensional datetime64/timedelta64 arrays returns nested lists",
      "to_list of a two-dimensional datetime array")
fixed("C14", "bounds-check ArrayBuilder tuple indexes at the tuple level they address",
      "ArrayBuilder.index(i) with i out of range in a nested tuple crashed the process")
fixed("C02", "carrying a masked array of records keeps it valid",
      "picking rows of a byte- or bit-masked record array by index array")
fixed("C02", "slice items after the first apply below it when they pass through records",
      "array[0, :, 1] on lists of records of lists applied the items at the wrong level")
fixed("C02", "several index arrays in one slice stay aligned with the data they index",
      "two index arrays in one slice tuple picked the data of other rows")
fixed("C02", "slicing a strided NumPy buffer inside of another node copies it contiguously first",
      "slicing a non-contiguous array nested in lists or records read the wrong elements")
fixed("C02", "slicing lists by an index array of zero size keeps the number of lists",
      "array[:, []] lost the lists")
fixed("C02", "flatten slice index arrays of three or more dimensions without overlap",
      "index arrays of three or more dimensions selected the wrong elements")
fixed("C02", "newaxis above records adds a dimension whether or not they are lazily carried",
      "array[..., np.newaxis] on picked records")
fixed("C02", "positional slice items before a field name are checked against all fields",
      "array[i, 'x'] accepted an index out of range of another field")
fixed("C03", "nested slices with strided, masked or mismatched buffers select the right items",
      "nested slices made of strided or masked buffers, or of multidimensional arrays, selected wrong items")
fixed("C05", "flattening completely ignores unreachable record contents and yields one-dimensional arrays",
      "axis=None reductions included record data beyond the array's length")
fixed("C05", "reducers place results, positions and fixed-size dimensions correctly",
      "ak.sum([[[], [5]]], axis=0) gave [[5], []]; argmin/argmax of sliced lists or with missing lists gave wrong positions")
fixed("C07", "sorting keeps lists, missing values and equal strings in their places",
      "sort/argsort of sliced or missing lists misplaced or lost items; descending strings compared invalidly")
fixed("C10", "num of sliced nested lists, run_lengths with empty edges, empty multidimensional arrays",
      "ak.num(axis>=2) of lists whose offsets do not start at zero; ak.run_lengths with empty first or last lists")
fixed("C11", "combinations of short fixed-size lists and nested cartesian products of empty arrays",
      "ak.combinations(fixed-size lists shorter than n) wrote out of bounds; ak.cartesian(axis=0, nested=True) lost empty lists")
fixed("C08", "broadcasting respects fixed sizes, unreachable items and the outer dimension",
      "inner NumPy arrays of different depth were broadcast along the wrong dimension; unreachable items caused refusals")
fixed("C09", "missing-value functions agree for every encoding; merging of records, virtual and indexed arrays",
      "ak.where/ak.fill_none read past the end of records; is_none, mask, where and firsts failed on rectangular arrays; "
      "fill_none and pad_none depended on the encoding of missing values")
fixed("C10", "unflatten keeps empty lists before the first item of a deeper axis",
      "ak.unflatten([[1, 2]], [0, 2], axis=1) lost the empty list")

fixed("C12", "concatenation of fixed-size lists with unused items, complex numbers, missing lists and partitions of different types",
      "ak.concatenate returned items of the wrong array for fixed-size lists with unused content, half of the numbers when "
      "merged with complex numbers, lost or invented items for missing lists, and strings made of numbers for partitions "
      "of different types")

fixed("C14", "ArrayBuilder keeps bytes and strings apart, complex numbers in bounds and records after clearing",
      "appending a complex number after integers wrote past the end of a buffer; bytes and strings were mixed up; "
      "end_record after a complex number was accepted; clear() on a builder of records crashed")

fixed("C16", "JSON output is always well-formed and numbers survive it",
      "ak.to_json wrote nothing for NaN and infinity, and negative numbers for uint64 above 2**63; integers above 2**63 - 1 "
      "were read as negative; strings that start like the NaN string were read as NaN; complex numbers came back wrong")
fixed("C17", "packing keeps parameters and buffers are read up to the length they are needed for",
      "ak.packed (hence pickling) dropped parameters and categorical types; ak.from_buffers could not read masked records "
      "in lists, bytes objects or zero-size inner shapes")
fixed("C17", "slices of virtual arrays with bit masks conform to their expected form",
      "a virtual record array with a BitMaskedArray field could not be read after slicing")

fixed("C20", "AwkwardForth exit, stepping, calls in loops, 64-bit values, n-bit widths and bounds",
      "exit in a word called from a do loop ended that loop, or left its own loop active; step() never ended do loops and ignored "
      "exit; call() while paused advanced the loop; ForthMachine64 truncated reads, i/j/k and abs to 32 bits; n-bit reads wider "
      "than 30 bits were wrong; negative read counts and rewinds reached outside of the buffers")

fixed("C13", "strings are broadcasted as a whole, whatever their lengths", "a string whose length happened to equal the length of the list it was combined with was taken apart into characters")
fixed("C13", "zip pairs up lists of strings and arrays of only strings", "ak.zip of strings alone gave one record of arrays instead of an array of records; lists of strings were not zipped")
fixed("C13", "with_field replaces the only field of nested records", "replacing the only field of records in lists (or of missing records) dropped the lists and refused scalars")
fixed("C13", "zip depth_limit beyond the depth, with_field of missing values in optional records", "zip refused a depth_limit above the arrays' depth; a missing value given to with_field erased the whole (optional) record")

fixed("C27", "overlaying a mask on an unsigned 32-bit index gives -1, not 4294967295", "awkward_IndexedArrayU32_overlay_mask8_to64 wrote 4294967295 for masked elements")
fixed("C27", "definitions of five kernels in the kernel specification", "the definitions of getitem_jagged_numvalid, missing_repeat, ranges_next, ranges_carry_next and the type of fill_scaled's scale did not describe the kernels")

fixed("C05", "argmin and argmax of a whole partitioned array", "ak.argmin/argmax(axis=None) of a partitioned array with lists gave a wrong index")
fixed("C11", "cartesian of multidimensional NumPy arrays", "ak.cartesian(axis=1) of a three-dimensional NumpyArray paired numbers with lists")
fixed("C22", "partitioned arrays that are empty, mixed or sliced in the partitioned dimension", "repartitioning an empty array crashed; an empty slice lost a dimension; slices with ellipsis, arrays behind the first item or n-d integers were wrong or refused; with_parameter failed; reductions dropped their initial value and recursed into records; concatenations of partitions with different types were inconsistent")
fixed("C22", "values_astype of multidimensional NumPy arrays", "ak.values_astype of an n-d NumpyArray converted only its first items and returned garbage for the rest")
fixed("C22", "sorting and padding records keeps the number of records", "ak.sort/argsort/pad_none of records with unused items in their fields gave too many records")

fixed("C25", "operations on several option-type arrays do not modify their masks", "a + b (and any broadcasting of two arrays with missing values) wrote b's missing positions into the mask of a when a was a ByteMaskedArray")
fixed("C25", "padding an empty ListArray reads no bounds", "ak.pad_none of an empty ListArray crashed")
fixed("C05", "argmin, argmax and max of complex numbers", "argmin/argmax of complex numbers read outside of their buffers; max of complex numbers was never below zero")
fixed("C03", "nested slices with a new axis follow indexed arrays and stay in bounds", "array[index[:, np.newaxis]] ignored the order of an IndexedArray and read outside of a too short index")

fixed("C17", "copies of slices of NumPy arrays", "ak.copy and deepcopy of a slice like array[1:] gave garbage; of reversed arrays they crashed")
fixed("C25", "flattening unions at different depths is refused", "ak.flatten of a union whose alternatives have the axis at different depths crashed")
fixed("C22", "padding records never makes them longer than their fields", "ak.pad_none(axis=-1) of records in lists gave records longer than their fields")
fixed("C21", "virtual arrays end at their announced length, slices of them need not have the predicted form", "a generator returning more than announced made an array longer than its length; fields of lazy records in options or indexed arrays could not be read")
fixed("C21", "run_lengths of virtual arrays and of records, zip of lists of unions", "ak.run_lengths refused virtual arrays and gave garbage for records; ak.zip of lists of unions gave one record")

fixed("C06", "reducers of indexed lists do not add option types, nor nest them",
      "ak.ptp(mask_identity=False) left None for empty lists when lists were reached through an index")
fixed("C18", "to_arrow accepts arrays that are not contiguous", "ak.to_arrow refused strided arrays")
fixed("C18", "to_arrow keeps missing values around virtual arrays", "ak.to_arrow turned missing values into data where the content is a virtual array")
fixed("C18", "from_arrow keeps the nulls of a sliced dictionary array", "nulls of a sliced dictionary array became values")
fixed("C18", "from_arrow applies the offset of a sliced struct array to its validity bitmap",
      "ak.from_arrow of a slice of an Arrow struct array with nulls had the nulls in the wrong places")
fixed("C18", "from_arrow accepts buffers that are longer than the array", "ak.from_arrow refused Arrow arrays with padded buffers")
fixed("C18", "from_arrow and from_parquet accept arrays without any rows",
      "ak.from_arrow and ak.from_parquet refused chunked arrays, tables and files with no rows")
known("C24", "K24", "ak.broadcast_arrays, ak.is_none, ak.firsts, ak.nan_to_num, ak.pad_none, ak.flatten, ak.concatenate, ak.cartesian and slices that reach into "
      "strings take them for lists of numbers and return arrays that are not valid strings",
      "import awkward as ak\n"
      "a, b = ak.broadcast_arrays(ak.Array(['ab', 'c']), ak.Array([1, 2]))\n"
      "assert ak.is_valid(a) and ak.is_valid(b)\n")
fixed("C24", "combinations and cartesian do not put an indexed array inside an indexed array",
      "ak.combinations and ak.cartesian along axis=0 gave arrays that ak.is_valid rejects")
fixed("C13", "a field name that merely starts with a number is not a field index",
      "array['1abc'] gave the second field of records that have no such field")
with open(V + "/known_findings.json", "w") as f:
    json.dump({"findings": F}, f, indent=1)
    f.write("\n")
print(len(F), "findings")

SPECS["C06"] = {
    "harnesses": [{"src": "c06.cpp", "repo": ALL, "configs": grid(fn=list(range(70))), "flags": ["-DSYM_STRINGS"]},
        {"src": "c06n.cpp", "repo": ALL, "configs": grid(fn=list(range(13))), "flags": ["-DSYM_STRINGS"]}],
    "bounds": "70 processing functions (all CPU functions that take arrays; the optimised weighting and ES gridders exist only for GPUs) with one set of fitting arguments each (dimensions up to 16); one array at a time gets: any other type, any other size 0-12 of one dimension, any other number of dimensions 1-6, the GPU location, read-only outputs, a repeating (zero-stride) dimension, column order or gaps between elements (compared with the contiguous call); numbers: plan sizes, row ranges, offsets, strides, points and FFT dimensions in small ranges around zero and the array sizes",
}

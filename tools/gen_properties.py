#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
S = "src/ska-sdp-func/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f if not f.startswith("src/") else f for f in files],
                     mechanism=[dict(name=n, where=S + w if not w.startswith("src/") else w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

MEM = "utility/sdp_mem.cpp"
prop("C01", "Memory handles describe exactly the storage they own or wrap",
 "A memory handle reports the type, location, shape, strides, element count and contiguity it was created with; element (i,j,k,..) lives at the byte offset given by the strides, and every element of an owned array lies inside its allocation. A handle whose requested size cannot be represented is refused with an error status instead of being created smaller than its shape says.",
 ["inputs", "configurations"], "all element types, numbers of dimensions and shapes (including zero-sized and huge), with and without explicit strides",
 "mem tests use two or three fixed shapes; size arithmetic and stride generation must hold for every shape, including those whose product wraps.",
 [MEM, "utility/sdp_mem.h"], [("size and stride computation", MEM), ("contiguity tests", MEM)], ["sdp_mem_create", "sdp_mem_create_wrapper", "sdp_mem_shape_dim", "sdp_mem_stride_bytes_dim"])
prop("C02", "Slices and aliases address exactly the parent's elements, never outside",
 "A slice handle or alias refers to the parent's own storage: element e of a slice at offset o is the parent's element o+e, writes through one are seen through the other, and a slice or alias of read-only data is itself read-only. A slice request that is not wholly inside the parent is refused with an error status.",
 ["inputs"], "all parent shapes/strides, slice offsets and slice shapes, including negative and overlapping-the-end ones",
 "the tests take one in-range slice; offset+shape combinations are unbounded and the failing ones corrupt memory silently.",
 [MEM], [("sdp_mem_create_wrapper_for_slice", MEM), ("sdp_mem_create_alias", MEM)])
prop("C03", "Copies and conversions preserve every element and touch nothing else",
 "Copying an array, copying part of one array into another, setting or clearing a portion, and converting single to double precision give exactly the source values at exactly the requested elements of the destination, and change no other byte. The copy of an array holds the same logical elements as the original whatever its memory layout.",
 ["inputs"], "all types, shapes, layouts (C, Fortran, sliced), offsets and element counts within the arrays",
 "tests copy whole C-contiguous arrays with fixed values; offsets, layouts and neighbours are not observed.",
 [MEM], [("sdp_mem_create_copy / copy_contents / clear_portion / set_value / convert_precision", MEM)])
prop("C04", "Checked views are granted only for a matching array and index it by stride",
 "Asking for a typed view of an array succeeds only if element type, location, number of dimensions and writability match what the view needs; otherwise the status is set and no usable view results. A granted view's element (i,j,..) is the array element with those indices, whatever the strides.",
 ["inputs", "configurations"], "all type/dimension/location/writability combinations and strides",
 "the tests view contiguous arrays of the right type.",
 ["utility/sdp_mem_view.h"], [("sdp_mem_check_and_view", "utility/sdp_mem_view.h")])
prop("C05", "Nothing happens once an error status is set",
 "A processing function entered with a non-zero status returns at once: it changes no array, does not touch invalid handles, and leaves the status as it was.",
 ["inputs", "fault_sequences"], "every non-zero status code and every data value at entry of each processing function",
 "tests hardly ever call a function with an error already set; the promise is about every function and every prior failure.",
 ["visibility", "grid_data", "fourier_transforms", "utility", "clean", "numeric_functions", "station_beam"], [("early return on *status", "utility/sdp_errors.h")])
prop("C06", "Mismatched arguments are refused before any data is touched",
 "Given arrays whose types, shapes, locations or writability do not fit the documented data model, a processing function sets an error status, changes no array contents and never accesses memory outside its arguments.",
 ["inputs", "configurations"], "each single-argument corruption (wrong type, wrong dimension count, too small or too large dimension, wrong location, read-only output) of a valid call",
 "tests exercise a few error paths; the combinations of argument and defect are many and a missed one is an out-of-bounds access.",
 ["utility/sdp_data_model_checks.h", "visibility", "grid_data", "station_beam"], [("data model checks", "utility/sdp_data_model_checks.h"), ("sdp_mem_check_* helpers", MEM)])
prop("C07", "Direct Fourier prediction computes the measurement equation",
 "Each predicted visibility (time, baseline, channel, polarisation) equals the sum over sources of source flux times exp(+/-2 pi i (u l + v m + w (n-1 form used)) f/c) for that source, row and channel; the two entry points agree when given equivalent coordinates, and every output element is written.",
 ["inputs", "configurations"], "all fluxes, directions, uvw values and frequencies; all supported precisions; several unequal dimension sizes",
 "tests compare one data set per precision against a reference; index mix-ups between axes need unequal sizes and generic data on every path.",
 ["visibility/sdp_dft.cpp"], [("dft_point_v00 / dft_point_v01", "visibility/sdp_dft.cpp")])
prop("C08", "Phase-centre rotation of uvw is an isometry that can be undone",
 "Rotating uvw coordinates from one phase centre to another turns every row by minus the right-ascension difference about v and then by the declination difference about u: lengths and scalar products are preserved, rotating to the same centre is the identity, a rotation in one of the two angles is undone by rotating back, every row is rotated independently, and the new w axis points at the new centre.",
 ["inputs"], "all uvw values and all pairs of phase-centre directions; both precisions",
 "one pair of directions is tested; the algebraic identities must hold for all.",
 ["visibility/sdp_phase_rotate.cpp"], [("rotation matrix", "visibility/sdp_phase_rotate.cpp")])
prop("C09", "Phase rotation of visibilities multiplies each by its own unit phasor",
 "Rotating visibilities multiplies each by exp(2 pi i f/c (u dl + v dm + w dn)) for its own row, channel and the direction difference, where (dl,dm,dn) is the phase centre minus the new centre in direction cosines relative to the old one; identically for all polarisations, preserving amplitude.",
 ["inputs"], "all visibilities, uvw values, channel frequencies and direction pairs; all supported precisions; unequal dimension sizes",
 "one data set is tested; amplitude and inversion identities are universal.",
 ["visibility/sdp_phase_rotate.cpp"], [("rotate_vis", "visibility/sdp_phase_rotate.cpp")])
prop("C10", "Grid-based weighting uses the right cell and never leaves the grid",
 "Uniform and Briggs weights of each visibility depend only on the accumulated weight of the grid cell that visibility falls in: uniform weight is the reciprocal of the cell's accumulated input weight, Briggs weight is input / (1 + f2 * cell) with f2 from the robustness parameter and the sums over visibilities; visibilities outside the grid are ignored (their output is left alone) and no cell outside the grid is read or written.",
 ["inputs"], "all uvw, frequencies, maximum |uv|, robustness, input weights and grid sizes up to the bound; both precisions",
 "tests use in-range random data; out-of-range and edge coordinates and cell assignment for every value are not reachable by sampling.",
 ["visibility/sdp_weighting.cpp"], [("uniform / briggs kernels", "visibility/sdp_weighting.cpp")])
prop("C11", "Flagging decisions follow the documented per-sample rules",
 "The flagger marks exactly the samples its thresholds call for: each decision depends only on samples of the same baseline and polarisation, flags are only ever set (never cleared), every index stays inside the arrays, and channel windows extend symmetrically and stop at band edges.",
 ["inputs", "configurations"], "all visibility amplitudes, thresholds, window sizes, sampling steps and history lengths within the bound",
 "python tests replicate one configuration with no window; boundaries of time, channel and history are not covered.",
 ["visibility/sdp_flagger.cpp"], [("flagger_fixed_threshold / flagger_dynamic_threshold", "visibility/sdp_flagger.cpp")])
prop("C12", "Tile counting and bucket sorting conserve every visibility",
 "For any uv coordinates, the tile counts plus skipped visibilities account for every visibility-tile overlap, the tile offsets are the exclusive prefix sum of the counts, and bucket sorting places each visibility, with its own coordinates, value and weight, in each tile whose area its kernel support overlaps and nowhere else.",
 ["inputs"], "all uv coordinates, supports, tile sizes and grid sizes within the bound",
 "the existing tests need a GPU and are not run; conservation must hold for every distribution of points over tiles.",
 ["visibility/sdp_tiled_functions.cpp", "visibility/sdp_opt_weighting.cpp"], [("count / prefix sum / bucket sort", "visibility/sdp_tiled_functions.cpp")])
prop("C13", "Channel clamping selects exactly the channels inside the bounds",
 "Clamping a channel range to a coordinate interval keeps exactly those channels whose scaled coordinate is >= the lower and < the upper bound; adjacent intervals therefore split channels without loss or duplication, and results never leave the given channel range.",
 ["inputs"], "all uvw coordinates, frequencies, channel increments, ranges and bounds within magnitude limits; both single-axis and two-axis forms",
 "tests check sampled values; half-open boundary behaviour and zero or negative coordinates matter for every value.",
 ["grid_data/sdp_gridder_clamp_channels.cpp", "grid_data/sdp_gridder_clamp_channels.h"], [("clamp_channels", "grid_data/sdp_gridder_clamp_channels.h")])
prop("C14", "Coordinate bounds and visibility counts are exact",
 "The reported (u,v,w) bounds are the minimum and maximum of the scaled coordinates over exactly the selected channels of all rows, and the counted number of visibilities is the exact sum of channel-range lengths over the requested rows.",
 ["inputs"], "all coordinates of either sign, frequencies, channel ranges (including empty) and row ranges",
 "sampled data rarely puts the extreme in an edge row/channel or mixes signs with empty ranges.",
 ["grid_data/sdp_gridder_utils.cpp"], [("uvw_bounds_all, sum_diff", "grid_data/sdp_gridder_utils.cpp")])
prop("C15", "Sub-grid add and cut-out are exact periodic, mutually adjoint copies",
 "Cutting out a sub-grid returns, and adding a sub-grid accumulates with the given factor into, exactly the grid cells at the centred offset with periodic wrap-around in both axes; the two operations with opposite offsets address the same cells and all other cells are unchanged.",
 ["inputs"], "all offsets, all data, even/odd and rectangular grid and sub-grid sizes up to the bound, all supported types",
 "tests use square sizes with few offsets.",
 ["grid_data/sdp_gridder_utils.cpp"], [("subgrid_add, subgrid_cut_out", "grid_data/sdp_gridder_utils.cpp")])
prop("C16", "Image-to-source conversion and gridder DFTs follow their definition",
 "Image pixels map to (flux,l,m,n) with the documented centring, shear and taper, non-zero pixels only and in row order; predicting visibilities from them and imaging visibilities by direct FT are adjoint linear sums over sources/pixels with the sub-grid offsets applied, accumulating into the output, for rows whose channel range is not empty.",
 ["inputs"], "all pixel values, tapers, shears, offsets, frequencies and visibilities for small unequal sizes; both precisions",
 "tests use them only as a reference for other code with default shear and offsets.",
 ["grid_data/sdp_gridder_utils.cpp"], [("image_to_flmn, dft, idft", "grid_data/sdp_gridder_utils.cpp")])
prop("C17", "Element-wise gridder array operations compute their stated formula",
 "Accumulate-scaled, inverse-scale, residual, RMS difference, sub-grid shift, non-zero count, FFT phase and FFT normalisation give the stated element-wise result for every element, type combination, exponent (including zero and negative) and layout, and change nothing else.",
 ["inputs", "configurations"], "all values, exponents in [-3,3], rectangular shapes, strided layouts and type combinations",
 "each type combination is a separate code path; only a few run in tests and never with strided or rectangular arrays.",
 ["grid_data/sdp_gridder_utils.cpp", "fourier_transforms/sdp_fft.cpp"], [("element-wise helpers", "grid_data/sdp_gridder_utils.cpp")])
prop("C18", "Grid correction multiplies or divides each pixel by its own factor",
 "Correcting a facet divides every pixel by the product of the l, m (and n) taper values at that pixel's absolute position including the facet offset, and w-stack correction multiplies by the w phase (or its inverse) of that position; applying a correction and its inverse restores the facet, and no taper value outside the table is read.",
 ["inputs"], "all pixel data, facet offsets and sizes, shear, theta and w offsets within the bound; real and complex, both precisions",
 "tests use full-image facets with zero offset in most cases.",
 ["grid_data/sdp_gridder_grid_correct.cpp", "grid_data/sdp_gridder_direct.cpp"], [("grid_corr_pswf / grid_corr_w_stack", "grid_data/sdp_gridder_grid_correct.cpp")])
prop("C19", "The w-tower gridder places every visibility with its own kernel, in bounds",
 "Gridding adds, and degridding reads, each selected visibility at the sub-grid cells around its own (u,v,w) with kernel weights belonging to its own oversampled fractional offset in u, v and w; visibilities outside the sub-grid or the w-plane are left alone, rows and channels outside the requested ranges are untouched, and no memory outside the arrays is accessed.",
 ["inputs"], "all uvw values, channel ranges, offsets, row ranges; small sub-grid, support and oversampling values; supported precisions",
 "accuracy tests average over many points and cannot see a rare kernel index error at a boundary.",
 ["grid_data/sdp_gridder_wtower_uvw.cpp"], [("grid / degrid", "grid_data/sdp_gridder_wtower_uvw.cpp")])
prop("C20", "W-stacking processes every visibility exactly once for any thread count",
 "The full w-stack/w-tower gridder and degridder assign each visibility to exactly one w-plane, one sub-grid and one task chunk, whatever the number of threads or chunking, so all visibilities contribute exactly once.",
 ["inputs", "schedules", "configurations"], "all task sizes, thread counts and visibility distributions within the bound; all task-picking orders",
 "tests run with one thread count and compare within a loose tolerance.",
 ["grid_data/sdp_grid_wstack_wtower.cpp"], [("count_visibilities / pick_task", "grid_data/sdp_grid_wstack_wtower.cpp")])
prop("C21", "Gridding kernels, w-patterns and step sizes obey their formulae",
 "The oversampled kernel is the real DFT of the window at each fractional offset, the w-pattern is the unit phasor of the n-coordinate of each pixel, and the w-step derived from field of view and shear is the reciprocal of the n-range at the corner farthest from zero.",
 ["inputs"], "all window values, theta, shear and w_step values for small sizes",
 "no direct tests: only used indirectly through accuracy thresholds.",
 ["grid_data/sdp_gridder_utils.cpp"], [("make_kernel, make_w_pattern, determine_w_step", "grid_data/sdp_gridder_utils.cpp")])
prop("C22", "The ES-FFT gridder and degridder place each visibility correctly and in bounds",
 "In the exponential-of-semicircle FFT gridder every visibility is spread onto, or gathered from, the grid cells and w-planes within its kernel support with weights given by the ES kernel of its own distance, conjugated for negative w, within the grid's bounds, and dirty-image correction is applied per pixel at its own position.",
 ["inputs"], "all uvw, weights, visibilities for small grids and supports; both precisions, with and without w-stacking",
 "tests compare with a reference on one random data set in double or single precision.",
 ["grid_data/sdp_gridder_uvw_es_fft.cpp", "grid_data/sdp_gridder_uvw_es_fft_utils.cpp"], [("ES gridding kernels", "grid_data/sdp_gridder_uvw_es_fft_utils.cpp")])
prop("C23", "Custom-kernel degridding gathers each visibility from its own cells",
 "Each output visibility of the custom-kernel degridder is the sum over the kernel's support of grid value times u, v and w kernel values chosen by that visibility's own fractional offsets, conjugated when requested, for its own time, baseline, channel, polarisation; coordinates outside the grid never cause an access outside it.",
 ["inputs"], "all uvw, grid values, kernels, channel frequencies for small sizes; both precisions; conjugation on and off",
 "one fixed configuration is tested.",
 ["grid_data/sdp_degrid_uvw_custom.cpp"], [("degrid_uvw_custom", "grid_data/sdp_degrid_uvw_custom.cpp")])
prop("C24", "FFT plans compute the right transform along the right axes",
 "Executing an FFT plan computes the unnormalised discrete Fourier transform of the requested direction over exactly the last num_dims axes of each batch element; inverse after forward with normalisation restores the data, the shift variant centres the origin, plans reject arrays that differ from those they were made for.",
 ["inputs", "configurations"], "all data; 1D-3D shapes of small unequal sizes, batch and non-batch, forward and inverse, in and out of place, both precisions",
 "tests use one or two sizes with fixed data and, with shift, only even square sizes.",
 ["fourier_transforms/sdp_fft.cpp"], [("plan set-up and execution", "fourier_transforms/sdp_fft.cpp")])
prop("C25", "The padded FFT size is the smallest even 11-smooth size that is large enough",
 "The padded size is the smallest number not below size times padding factor that is even and has no prime factor above 11.",
 ["inputs"], "all sizes up to the bound and padding factors in range",
 "tests list some values.",
 ["fourier_transforms/sdp_fft_padded_size.cpp"], [("min-heap search", "fourier_transforms/sdp_fft_padded_size.cpp")])
prop("C26", "Prolate spheroidal functions are even, bounded and consistently sampled",
 "The generated window samples the prolate spheroidal function at the documented positions, is symmetric about its centre, and vanishes or is left at zero only at the edge sample; evaluating the plan at x and -x agrees and evaluation outside the domain is safe.",
 ["inputs"], "all evaluation points, even and odd window sizes, several parameters",
 "tests compare tabulated values at sampled points.",
 ["fourier_transforms/sdp_pswf.cpp", "fourier_transforms/private_pswf.h"], [("generate_pswf / evaluate", "fourier_transforms/sdp_pswf.cpp")])
prop("C27", "SwiFTly facet and sub-grid steps are linear, in-bounds and shift-consistent",
 "Each SwiFTly step (prepare, extract, add, finish; facet to sub-grid and back) is the documented linear map of its input: output elements are the windowed, cyclically shifted and transformed input elements for the given facet and sub-grid offsets, steps broadcast independently along the other axis, 2D forms equal two 1D steps, and no element outside the arrays is accessed.",
 ["inputs", "configurations"], "all data and all offsets modulo the image size for small sizes",
 "tests run whole round trips at a few offsets with a tolerance.",
 ["fourier_transforms/sdp_swiftly.cpp"], [("SwiFTly steps", "fourier_transforms/sdp_swiftly.cpp")])
prop("C28", "FFT convolution equals direct 2D convolution, same-sized and centred",
 "Convolving two square complex images by FFT gives exactly the direct linear convolution restricted to the size of the first input with the documented centring, for any combination of even and odd sizes.",
 ["inputs", "configurations"], "all image values for every pair of sizes up to the bound; both precisions",
 "one size pair is tested.",
 ["numeric_functions/sdp_fft_convolution.cpp"], [("pad / transform / crop", "numeric_functions/sdp_fft_convolution.cpp")])
prop("C29", "Hogbom CLEAN conserves flux bookkeeping and stops when it should",
 "At every stop of Hogbom CLEAN the residual equals the dirty image minus the components convolved with the PSF, each component is loop gain times the then-maximum residual at its position, iteration ends at the cycle limit or once the maximum is below threshold, and the sky model is components convolved with the clean beam plus residual.",
 ["inputs", "histories"], "all dirty images, PSFs, gains and thresholds for small images and cycle limits",
 "the test compares against a reimplementation on a few images and is not in the stable list.",
 ["clean/sdp_hogbom_clean.cpp"], [("CLEAN loop", "clean/sdp_hogbom_clean.cpp")])
prop("C30", "Multi-scale CLEAN keeps its bookkeeping consistent and in bounds",
 "Multi-scale CLEAN stays inside its arrays for every image, stops at the cycle limit or threshold, and its reported residual, components and sky model are mutually consistent with the scales and the PSF.",
 ["inputs", "histories"], "all dirty images and PSF values for small images, scales and cycle limits",
 "the test compares against a reimplementation and is not in the stable list.",
 ["clean/sdp_ms_clean_cornwell.cpp"], [("MS-CLEAN loop", "clean/sdp_ms_clean_cornwell.cpp")])
prop("C31", "Station beams sum element responses with their own weights and phases",
 "The array factor and station beam at each point are the (optionally normalised) sum over elements of weight times element response times phasor of element position and direction, reading and writing only at the given index offsets, for 2D and 3D arrays and shared or per-element responses; linear in the weights.",
 ["inputs", "configurations"], "all positions, weights, responses, indices and offsets for small unequal sizes; both precisions",
 "a few fixed configurations are tested.",
 ["station_beam/sdp_station.cpp"], [("station_beam_array_factor / aperture_array", "station_beam/sdp_station.cpp")])
prop("C32", "Element patterns are evaluated per point, stride and offset",
 "The dipole and spherical-wave element patterns write, at the element selected by output index offset and stride for each point, the response of that point's own direction (with the given frequency, dipole length or coefficients), and leave all other output elements alone.",
 ["inputs", "configurations"], "all angles, coefficients, offsets and strides for small point counts; scalar and polarised output; both precisions",
 "fixed offsets/strides are tested.",
 ["station_beam/sdp_element_dipole.cpp", "station_beam/sdp_element_spherical_wave_harp.cpp", "math/sdp_legendre_polynomial.h"], [("element evaluation", "station_beam/sdp_element_dipole.cpp")])
prop("C33", "Parallel loops give the same result under every schedule",
 "In every parallelised CPU function no two concurrent iterations write the same memory, or one writes what another reads, without synchronisation, so results and visibility counts do not depend on thread count or scheduling.",
 ["schedules", "inputs"], "all interleavings of loop iterations/threads, for all data within small shapes",
 "races show up only under particular interleavings that tests cannot force.",
 ["visibility", "grid_data", "fourier_transforms/sdp_fft.cpp"], [("OpenMP worksharing, atomic, critical", "utility/sdp_thread_support.h")])
prop("C34", "Inputs stay intact and every call cleans up after itself",
 "A successful or refused call leaves all const arguments bit-for-bit unchanged, frees every temporary it allocated exactly once, and creating then freeing a plan or array releases all of its memory.",
 ["inputs", "histories"], "all data and all success/refusal outcomes of each function and plan life cycle within the bounds",
 "tests do not watch inputs or the heap.",
 ["utility/sdp_mem.cpp", "grid_data", "fourier_transforms", "clean", "numeric_functions"], [("sdp_mem_free / ref counting", MEM)])
prop("C35", "Timers and sky coordinates keep their hierarchy and values",
 "Named nested timers accumulate under the right parent and thread, push/pop pairs restore the current node for any nesting, and sky coordinate objects hold the values given.",
 ["histories"], "all push/pop sequences up to the bound, all coordinate values",
 "no tests of nesting.",
 ["utility/sdp_timer.cpp", "utility/sdp_sky_coord.h"], [("timer tree", "utility/sdp_timer.cpp")])
prop("C36", "Python bindings pass arrays through with the right layout and order",
 "Each Python function forwards its arguments to the C function in the declared order and type, and a wrapped array keeps its type, shape, strides, location and writability.",
 ["inputs", "configurations"], "all argument values, array dtypes, shapes, strides and flags",
 "python tests pass contiguous arrays and few option combinations.",
 ["src/ska_sdp_func/utility/mem.py", "src/ska_sdp_func/utility/lib.py"], [("Mem wrapper, Lib.wrap_func", "src/ska_sdp_func/utility/mem.py")])
prop("C37", "GPU kernels agree with the CPU code",
 "For arrays that fit together, every processing function with GPU kernels gives the same results (within rounding) with all arrays in GPU memory as with the same arrays in CPU memory, and leaves nothing else changed; no kernel accesses memory outside its arrays or has a result that depends on the order in which GPU threads run. A function without kernels refuses GPU arrays with an error and leaves them untouched, and the argument checks that hold for CPU arrays hold for GPU arrays.",
 ["inputs", "schedules"], "all values of the arrays, all sizes and orders of GPU threads and blocks",
 "tests of the kernels need a GPU, which the test environment lacks, so none of the .cu sources is even compiled.",
 ["visibility/sdp_dft.cu", "grid_data/sdp_gridder_utils.cu", "grid_data/sdp_gridder_wtower_uvw.cu", "station_beam/sdp_station.cu", "visibility/sdp_tiled_functions.cu", "visibility/sdp_weighting.cu"],
 [("CUDA kernels", "visibility/sdp_dft.cu"), ("kernel launches", "utility/sdp_device_wrapper.cpp")])
prop("C38", "The w-tower height found is the greatest that meets the target error",
 "For every gridder configuration, the height returned is twice the largest number of w-planes at which the measured error stays below the target, which defaults to twice the error at w = 0, and zero if none does. The error is the RMS difference between the gridder's prediction and a direct transform of the same worst-case image (sources in the corners of the field of view, inside the image), at samples spanning the requested fraction of the sub-grid at exactly the w being tried.",
 ["inputs", "configurations", "fault_sequences"], "all errors that do not fall with w, target errors, w steps, fields of view, sample counts and sub-grid fractions, and failures of any measurement",
 "one test compares the result for a handful of configurations.",
 ["grid_data/sdp_gridder_wtower_height.cpp"], [("height search and accuracy measurement", "grid_data/sdp_gridder_wtower_height.cpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

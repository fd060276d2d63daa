"""What each Python function must hand to which C function.

One row per Python function: its parameters in order (name:kind[=default]),
the C function, and the expected C arguments in the order of the prototype
(without the error code). Kinds: A array (A<n>: n dimensions, A? may be None),
d float, i integer within the C type, b flag, t tuple of three integers,
K sky coordinate, R ctypes integer passed by reference. An expected argument is
an expression over the parameters; `self` is the object's handle."""

F = []


def f(py, params, c, expect=None, **kw):
    ps = []
    for t in params.split():
        n, k = t.split(":")
        k, _, d = k.partition("=")
        ps.append((n, k, d if _ else None))
    exp = expect.split() if expect is not None else [p[0] for p in ps]
    F.append(dict(py=py, params=ps, c=c, expect=exp, **kw))


# visibility
f("visibility.dft:dft_point_v00", "source_directions:A source_fluxes:A uvw_lambda:A vis:A", "sdp_dft_point_v00")
f("visibility.dft:dft_point_v01", "source_directions:A source_fluxes:A uvw:A channel_start_hz:d channel_step_hz:d vis:A", "sdp_dft_point_v01")
f("visibility.flagger:flagger_dynamic_threshold", "vis:A flags:A alpha:d threshold_magnitudes:d threshold_variations:d threshold_broadband:d "
  "sampling_step:i window:i window_median_history:i", "sdp_flagger_dynamic_threshold")
f("visibility.opt_weighting:optimized_weighting", "uvw:A freqs:A vis:A weights:A robust_param:d grid_size:i support:i sorted_uu:A sorted_vv:A sorted_weight:A "
  "sorted_tile:A tile_offsets:A num_points_in_tiles:A output_weights:A", "sdp_optimized_weighting")
f("visibility.opt_weighting:optimised_indexed_weighting", "uvw:A vis:A weights:A robust_param:d grid_size:i cell_size_rad:d support:i num_visibilities:R "
  "sorted_tile:A sorted_uu:A sorted_vv:A sorted_vis_index:A tile_offsets:A num_points_in_tiles:A output_weights:A", "sdp_optimised_indexed_weighting")
f("visibility.phase_rotate:phase_rotate_uvw", "phase_centre_orig:K phase_centre_new:K uvw_in:A uvw_out:A", "sdp_phase_rotate_uvw")
f("visibility.phase_rotate:phase_rotate_vis", "phase_centre_orig:K phase_centre_new:K channel_start_hz:d channel_step_hz:d uvw:A vis_in:A vis_out:A",
  "sdp_phase_rotate_vis")
f("visibility.tiled_functions:count_and_prefix_sum", "uvw:A freqs:A vis:A grid_size:i tile_size_u:i tile_size_v:i cell_size_rad:d support:i num_visibilities:R "
  "tile_offsets:A num_points_in_tiles:A num_skipped:A", "sdp_count_and_prefix_sum")
f("visibility.tiled_functions:bucket_sort", "uvw:A freqs:A vis:A weights:A grid_size:i tile_size_u:i tile_size_v:i cell_size_rad:d support:i sorted_uu:A "
  "sorted_vv:A sorted_weight:A sorted_tile:A sorted_vis:A tile_offsets:A", "sdp_bucket_sort")
f("visibility.tiled_functions:tiled_indexing", "uvw:A freqs:A grid_size:i tile_size_u:i tile_size_v:i cell_size_rad:d support:i num_channels:i num_baselines:i "
  "num_times:i sorted_tile:A sorted_uu:A sorted_vv:A sorted_vis_index:A tile_offsets:A", "sdp_tiled_indexing")
f("visibility.weighting:briggs_weights", "uvw:A freq_hz:A max_abs_uv:d robust_param:d grid_uv:A input_weights:A output_weights:A", "sdp_weighting_briggs")
f("visibility.weighting:uniform_weights", "uvw:A freq_hz:A max_abs_uv:d grid_uv:A input_weights:A output_weights:A", "sdp_weighting_uniform")

# clean, convolution, station beam
f("clean.hogbom_clean:hogbom_clean", "dirty_img:A psf:A cbeam_details:A loop_gain:d threshold:d cycle_limit:i clean_model:A residual:A skymodel:A",
  "sdp_hogbom_clean")
f("clean.ms_clean_cornwell:ms_clean_cornwell", "dirty_img:A psf:A cbeam_details:A scale_list:A loop_gain:d threshold:d cycle_limit:i clean_model:A residual:A "
  "skymodel:A", "sdp_ms_clean_cornwell")
f("numeric_functions.fft_convolution:fft_convolution", "in1:A in2:A out:A", "sdp_fft_convolution")
f("station_beam.element:dipole", "theta_rad:A1 phi_rad:A freq_hz:d dipole_length_m:d stride_element_beam:i index_offset_element_beam:i element_beam:A",
  "sdp_element_beam_dipole", "theta_rad.size theta_rad phi_rad freq_hz dipole_length_m stride_element_beam index_offset_element_beam element_beam")
f("station_beam.element:spherical_wave_harp", "theta_rad:A1 phi_x_rad:A phi_y_rad:A l_max:i coeffs:A index_offset_element_beam:i element_beam:A",
  "sdp_element_beam_spherical_wave_harp", "theta_rad.size theta_rad phi_x_rad phi_y_rad l_max coeffs index_offset_element_beam element_beam")
f("station_beam.station:aperture_array", "wavenumber:d element_weights:A element_x:A element_y:A element_z:A point_x:A1 point_y:A point_z:A "
  "element_beam_index:A? element_beam:A? station_beam:A normalise:b=True eval_x:b=True eval_y:b=True", "sdp_station_beam_aperture_array",
  "wavenumber element_weights element_x element_y element_z 0 point_x.size point_x point_y point_z element_beam_index element_beam 0 station_beam "
  "normalise eval_x eval_y")

# Fourier transforms
f("fourier_transforms.fft:Fft", "input_data:A output_data:A num_dims_fft:i is_forward:b", "sdp_fft_create", free="sdp_fft_free")
f("fourier_transforms.fft:Fft.exec", "input_data:A output_data:A", "sdp_fft_exec", "self input_data output_data")
f("fourier_transforms.fft:padded_fft_size", "num:i padding_factor:d", "sdp_fft_padded_size", ret=True)
f("fourier_transforms.swiftly:Swiftly", "image_size:i yN_size:i xM_size:i W:d", "sdp_swiftly_create", free="sdp_swiftly_free")
for _n, _p in (("prepare_facet", "facet:A prep_facet_out:A facet_offset:i"), ("extract_from_facet", "prep_facet:A contribution_out:A subgrid_offset:i"),
               ("add_to_subgrid", "contribution:A subgrid_image_inout:A facet_offset:i"),
               ("add_to_subgrid_2d", "contribution:A subgrid_image_inout:A facet_offset0:i facet_offset1:i"),
               ("finish_subgrid_inplace", "subgrid_inout:A subgrid_offset:i"),
               ("finish_subgrid", "subgrid_image:A subgrid_out:A subgrid_offset:i"),
               ("finish_subgrid_inplace_2d", "subgrid_inout:A subgrid_offset0:i subgrid_offset1:i"),
               ("prepare_subgrid_inplace", "subgrid_inout:A subgrid_offset:i"),
               ("prepare_subgrid_inplace_2d", "subgrid_inout:A subgrid_offset0:i subgrid_offset1:i"),
               ("extract_from_subgrid", "subgrid_image:A contribution_out:A facet_offset:i"),
               ("extract_from_subgrid_2d", "subgrid_image:A contribution_out:A facet_offset0:i facet_offset1:i"),
               ("add_to_facet", "contribution:A facet_data_inout:A subgrid_offset:i"),
               ("finish_facet", "facet_data:A facet_out:A facet_offset:i")):
    f("fourier_transforms.swiftly:Swiftly." + _n, _p, "sdp_swiftly_" + _n, "self " + " ".join(t.split(":")[0] for t in _p.split()))

# gridding
f("grid_data.degrid_uvw_custom:degrid_uvw_custom", "grid:A uvw:A uv_kernel:A w_kernel:A theta:d wstep:d channel_start_hz:d channel_step_hz:d conjugate:b vis:A",
  "sdp_degrid_uvw_custom")
_W = ("freq0_hz:d dfreq_hz:d uvw:A subgrid_size:i theta:d w_step:d shear_u:d shear_v:d support:i oversampling:i w_support:i w_oversampling:i subgrid_frac:d "
      "w_tower_height:d verbosity:i ")
f("grid_data.grid_wstack_wtower:wstack_wtower_degrid_all", "image:A " + _W + "vis:A num_threads:i=None", "sdp_grid_wstack_wtower_degrid_all")
f("grid_data.grid_wstack_wtower:wstack_wtower_grid_all", "vis:A " + _W + "image:A num_threads:i=None", "sdp_grid_wstack_wtower_grid_all")
for _k, _c in (("gridder_direct:GridderDirect", "sdp_gridder_direct"), ("gridder_wtower_uvw:GridderWtowerUVW", "sdp_gridder_wtower_uvw")):
    _wt = "wtower" in _c
    _more = " oversampling:i w_support:i w_oversampling:i" if _wt else ""
    _r = " start_row:i=-1 end_row:i=-1" if _wt else ""
    _uv = "uvw" if _wt else "uvws"
    _re = " start_row end_row" if _wt else ""
    f("grid_data." + _k, "image_size:i subgrid_size:i theta:d w_step:d shear_u:d shear_v:d support:i" + _more, _c + "_create", free=_c + "_free")
    f("grid_data." + _k + ".degrid_subgrid", "subgrid_image:A subgrid_offset:t ch_count:i freq0_hz:d dfreq_hz:d uvws:A start_chs:A end_chs:A vis:A" + _r,
      _c + "_degrid", "self subgrid_image subgrid_offset[0] subgrid_offset[1] subgrid_offset[2] freq0_hz dfreq_hz uvws start_chs end_chs vis" + _re)
    f("grid_data." + _k + ".grid_subgrid", "vis:A %s:A start_chs:A end_chs:A ch_count:i freq0_hz:d dfreq_hz:d subgrid_image:A subgrid_offset:t" % _uv + _r,
      _c + "_grid", "self vis " + _uv + " start_chs end_chs freq0_hz dfreq_hz subgrid_image subgrid_offset[0] subgrid_offset[1] subgrid_offset[2]" + _re,
      raises=("RuntimeError", "ch_count != 0 and vis.shape[1] != ch_count"))
    for _o in ("degrid_correct", "grid_correct"):
        f("grid_data." + _k + "." + _o, "facet:A facet_offset_l:i facet_offset_m:i w_offset:i=0", _c + "_" + _o,
          "self facet facet_offset_l facet_offset_m w_offset", returns="facet")
    for _g in "image_size shear_u shear_v subgrid_size support theta w_step".split() + ("oversampling w_oversampling w_support".split() if _wt else []):
        f("grid_data." + _k + "." + _g, "", _c + "_" + _g, "self", ret=True, prop=True)
f("grid_data.gridder_wtower_uvw:GridderWtowerUVW.degrid", "subgrid_image:A subgrid_offset_u:i subgrid_offset_v:i subgrid_offset_w:i freq0_hz:d dfreq_hz:d uvws:A "
  "start_chs:A end_chs:A vis:A start_row:i=-1 end_row:i=-1", "sdp_gridder_wtower_uvw_degrid",
  "self subgrid_image subgrid_offset_u subgrid_offset_v subgrid_offset_w freq0_hz dfreq_hz uvws start_chs end_chs vis start_row end_row")
f("grid_data.gridder_wtower_uvw:GridderWtowerUVW.grid", "vis:A uvw:A start_chs:A end_chs:A freq0_hz:d dfreq_hz:d subgrid_image:A subgrid_offset_u:i "
  "subgrid_offset_v:i subgrid_offset_w:i start_row:i=-1 end_row:i=-1", "sdp_gridder_wtower_uvw_grid",
  "self vis uvw start_chs end_chs freq0_hz dfreq_hz subgrid_image subgrid_offset_u subgrid_offset_v subgrid_offset_w start_row end_row")
f("grid_data.gridder_utils:clamp_channels_single", "uvws:A dim:i freq0_hz:d dfreq_hz:d start_ch_in:A end_ch_in:A min_u:d max_u:d start_ch_out:A end_ch_out:A "
  "start_row:i=-1 end_row:i=-1", "sdp_gridder_clamp_channels_single")
f("grid_data.gridder_utils:clamp_channels_uv", "uvws:A freq0_hz:d dfreq_hz:d start_ch_in:A end_ch_in:A min_u:d max_u:d min_v:d max_v:d start_ch_out:A "
  "end_ch_out:A start_row:i=-1 end_row:i=-1", "sdp_gridder_clamp_channels_uv")
f("grid_data.gridder_utils:determine_max_w_tower_height", "subgrid_size:i theta:d fov:d w_step:d support:i oversampling:i w_support:i w_oversampling:i "
  "image_size:i=None shear_u:d=0.0 shear_v:d=0.0 subgrid_frac:d=2/3 num_samples:i=3 target_err:d=None", "sdp_gridder_determine_max_w_tower_height",
  "ITE(image_size,image_size,2*subgrid_size) subgrid_size theta w_step shear_u shear_v support oversampling w_support w_oversampling fov subgrid_frac "
  "num_samples target_err", ret=True, within={"subgrid_size": 1 << 29})
f("grid_data.gridder_utils:determine_w_step", "theta:d fov:d shear_u:d=0.0 shear_v:d=0.0 x_0:d=None", "sdp_gridder_determine_w_step", ret=True)
f("grid_data.gridder_utils:find_max_w_tower_height", "grid_kernel:G fov:d subgrid_frac:d=2/3 num_samples:i=3 target_err:d=None",
  "sdp_gridder_determine_max_w_tower_height", "G.image_size G.subgrid_size G.theta G.w_step G.shear_u G.shear_v G.support G.oversampling G.w_support "
  "G.w_oversampling fov subgrid_frac num_samples target_err", ret=True)
f("grid_data.gridder_utils:make_kernel", "window:A kernel:A", "sdp_gridder_make_kernel")
f("grid_data.gridder_utils:make_pswf_kernel", "support:i kernel:A", "sdp_gridder_make_pswf_kernel")
f("grid_data.gridder_utils:make_w_pattern", "subgrid_size:i theta:d shear_u:d shear_v:d w_step:d w_pattern:A", "sdp_gridder_make_w_pattern")
f("grid_data.gridder_utils:rms_diff", "array_a:A array_b:A", "sdp_gridder_rms_diff", ret=True)
f("grid_data.gridder_utils:subgrid_add", "grid:A offset_u:i offset_v:i subgrid:A factor:d=1.0", "sdp_gridder_subgrid_add")
f("grid_data.gridder_utils:subgrid_cut_out", "grid:A offset_u:i offset_v:i subgrid:A", "sdp_gridder_subgrid_cut_out")
f("grid_data.gridder_utils:uvw_bounds_all", "uvws:A freq0_hz:d dfreq_hz:d start_ch:A end_ch:A", "sdp_gridder_uvw_bounds_all",
  "uvws freq0_hz dfreq_hz start_ch end_ch *3 *3", bounds=True)
f("grid_data.gridder_uvw_es_fft:GridderUvwEsFft", "uvw:A freq_hz:A vis:A weight:A dirty_image:A pixel_size_x_rad:d pixel_size_y_rad:d epsilon:d "
  "do_w_stacking:b", "sdp_gridder_uvw_es_fft_create_plan", "uvw freq_hz vis weight dirty_image pixel_size_x_rad pixel_size_y_rad epsilon "
  "ITE(do_w_stacking,WMIN,0.0) ITE(do_w_stacking,WMAX,0.0) do_w_stacking", free="sdp_gridder_uvw_es_fft_free_plan",
  elements={"uvw": (2, 3), "freq_hz": (2,)})
for _m, _c in (("grid_uvw_es_fft", "sdp_grid_uvw_es_fft"), ("ifft_grid_uvw_es", "sdp_ifft_degrid_uvw_es")):
    f("grid_data.gridder_uvw_es_fft:GridderUvwEsFft." + _m, "uvw:A freq_hz:A vis:A weight:A dirty_image:A", _c, "self uvw freq_hz vis weight dirty_image")

# sky coordinates
f("utility.sky_coord:SkyCoord", "kind:s coord0:d coord1:d coord2:d=0.0", "sdp_sky_coord_create", free="sdp_sky_coord_free", positional=True)
f("utility.sky_coord:SkyCoord.epoch", "", "sdp_sky_coord_epoch", "self", ret=True)
f("utility.sky_coord:SkyCoord.value", "dim:i", "sdp_sky_coord_value", "self dim", ret=True)
f("utility.sky_coord:SkyCoord.set_epoch", "epoch:d", "sdp_sky_coord_set_epoch", "self epoch")
f("utility.sky_coord:SkyCoord.type", "", "sdp_sky_coord_type", "self", ret=True)

def _o(W, n): return W.array("o_" + n, writeable=True)


# Constructors of the objects whose methods are called.
CTOR = {
    "Fft": lambda W, k: k(_o(W, "in"), _o(W, "out"), 1, True),
    "Swiftly": lambda W, k: k(64, 32, 16, 8.0),
    "GridderDirect": lambda W, k: k(32, 16, 0.1, 1.0, 0.0, 0.0, 4),
    "GridderWtowerUVW": lambda W, k: k(32, 16, 0.1, 1.0, 0.0, 0.0, 4, 8, 4, 8),
    "GridderUvwEsFft": lambda W, k: k(_o(W, "u"), _o(W, "f"), _o(W, "v"), _o(W, "w"), _o(W, "d"), 0.1, 0.1, 1e-5, False),
    "SkyCoord": lambda W, k: k("icrs", W.float("o_0"), W.float("o_1"), W.float("o_2")),
}

TYPES = {"int8": "SDP_MEM_CHAR", "int32": "SDP_MEM_INT", "float32": "SDP_MEM_FLOAT", "float64": "SDP_MEM_DOUBLE",
         "complex64": "SDP_MEM_COMPLEX_FLOAT", "complex128": "SDP_MEM_COMPLEX_DOUBLE"}
BAD_TYPES = ["int16", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float16", ">f8", ">f4", ">i4", ">c16", ">c8", "S1", "U1", "O",
             "m8[s]", "V8", "longdouble", "clongdouble"]


def default_value(text):
    return eval(text, {})


def variants(row):
    """(name of the variant, options) for one row."""
    out = [("pos", {})]
    if row["params"] and not row.get("positional"):
        out.append(("kw", {"kw": True}))
    if any(p[2] is not None for p in row["params"]):
        out.append(("default", {"default": True}))
    if any(p[1] == "A?" for p in row["params"]):
        out.append(("none", {"none": True}))
    if any(p[1] == "K" for p in row["params"]):
        out.append(("astropy", {"astropy": True}))
    return out

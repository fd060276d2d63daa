ALL = CORE + ["utility/sdp_sky_coord.c", "utility/sdp_timer.cpp", "utility/sdp_thread_support.cpp"] + [d + "/" + f for d, fs in {
    "clean": ["sdp_hogbom_clean.cpp", "sdp_ms_clean_cornwell.cpp"], "examples": ["sdp_function_example_a.cpp", "sdp_vector_add.cpp"],
    "fourier_transforms": ["sdp_fft.cpp", "sdp_fft_padded_size.cpp", "sdp_pswf.cpp", "sdp_swiftly.cpp"],
    "grid_data": ["sdp_degrid_uvw_custom.cpp", "sdp_grid_wstack_wtower.cpp", "sdp_gridder_clamp_channels.cpp", "sdp_gridder_direct.cpp", "sdp_gridder_grid_correct.cpp", "sdp_gridder_utils.cpp",
                  "sdp_gridder_uvw_es_fft.cpp", "sdp_gridder_uvw_es_fft_utils.cpp", "sdp_gridder_wtower_height.cpp", "sdp_gridder_wtower_uvw.cpp"],
    "numeric_functions": ["sdp_fft_convolution.cpp"], "station_beam": ["sdp_element_dipole.cpp", "sdp_element_spherical_wave_harp.cpp", "sdp_station.cpp"],
    "visibility": ["sdp_dft.cpp", "sdp_flagger.cpp", "sdp_opt_weighting.cpp", "sdp_phase_rotate.cpp", "sdp_tiled_functions.cpp", "sdp_weighting.cpp"]}.items() for f in fs]
SPECS["C05"] = {
    "harnesses": [{"src": "c05.cpp", "repo": ALL, "configs": grid(lo=list(range(0, 110, 10)))}],
    "bounds": "every function declared with a status argument in the public headers (107; memory-handle constructors and the two PSWF accessors excepted); any status value in [-200,200] other than 0, any numbers (integers to 1000, reals to 1000), invalid addresses for every handle and array: any access to them is reported",
}

// Every function of the interface with a status argument.
F(sdp_hogbom_clean)
F(sdp_ms_clean_cornwell)
F(sdp_function_example_a_create_plan)
F(sdp_function_example_a_exec)
F(sdp_vector_add)
F(sdp_fft_create)
F(sdp_fft_exec)
F(sdp_fft_exec_shift)
F(sdp_fft_norm)
F(sdp_fft_phase)
F(sdp_generate_pswf)
F(sdp_pswf_generate)
F(sdp_swiftly_create)
F(sdp_swiftly_prepare_facet)
F(sdp_swiftly_extract_from_facet)
F(sdp_swiftly_add_to_subgrid)
F(sdp_swiftly_add_to_subgrid_2d)
F(sdp_swiftly_finish_subgrid_inplace)
F(sdp_swiftly_finish_subgrid)
F(sdp_swiftly_finish_subgrid_inplace_2d)
F(sdp_swiftly_prepare_subgrid_inplace)
F(sdp_swiftly_prepare_subgrid_inplace_2d)
F(sdp_swiftly_extract_from_subgrid)
F(sdp_swiftly_extract_from_subgrid_2d)
F(sdp_swiftly_add_to_facet)
F(sdp_swiftly_finish_facet)
F(sdp_degrid_uvw_custom)
F(sdp_grid_wstack_wtower_degrid_all)
F(sdp_grid_wstack_wtower_grid_all)
F(sdp_gridder_clamp_channels_single)
F(sdp_gridder_clamp_channels_uv)
F(sdp_gridder_direct_create)
F(sdp_gridder_direct_degrid)
F(sdp_gridder_direct_degrid_correct)
F(sdp_gridder_direct_grid)
F(sdp_gridder_direct_grid_correct)
F(sdp_gridder_grid_correct_pswf)
F(sdp_gridder_grid_correct_w_stack)
F(sdp_gridder_accumulate_scaled_arrays)
F(sdp_gridder_count_nonzero_pixels)
F(sdp_gridder_dft)
F(sdp_gridder_idft)
F(sdp_gridder_image_to_flmn)
F(sdp_gridder_make_kernel)
F(sdp_gridder_make_pswf_kernel)
F(sdp_gridder_make_w_pattern)
F(sdp_gridder_residual)
F(sdp_gridder_rms_diff)
F(sdp_gridder_scale_inv_array)
F(sdp_gridder_shift_subgrids)
F(sdp_gridder_subgrid_add)
F(sdp_gridder_subgrid_cut_out)
F(sdp_gridder_sum_diff)
F(sdp_gridder_uvw_bounds_all)
F(sdp_gridder_uvw_es_fft_create_plan)
F(sdp_grid_uvw_es_fft)
F(sdp_ifft_degrid_uvw_es)
F(sdp_calculate_params_from_epsilon)
F(sdp_gridder_determine_max_w_tower_height)
F(sdp_gridder_worst_case_image)
F(sdp_gridder_wtower_uvw_create)
F(sdp_gridder_wtower_uvw_degrid)
F(sdp_gridder_wtower_uvw_degrid_correct)
F(sdp_gridder_wtower_uvw_grid)
F(sdp_gridder_wtower_uvw_grid_correct)
F(sdp_fft_convolution)
F(sdp_element_beam_dipole)
F(sdp_element_beam_spherical_wave_harp)
F(sdp_station_beam_aperture_array)
F(sdp_data_model_check_uvw_at)
F(sdp_data_model_get_uvw_metadata)
F(sdp_data_model_check_vis_at)
F(sdp_data_model_get_vis_metadata)
F(sdp_data_model_check_weights_at)
F(sdp_data_model_get_weights_metadata)
F(sdp_mem_clear_contents)
F(sdp_mem_clear_portion)
F(sdp_mem_convert_precision)
F(sdp_mem_copy_contents)
F(sdp_mem_copy_contents_async)
F(sdp_mem_gpu_buffer)
F(sdp_mem_gpu_buffer_const)
F(sdp_mem_random_fill)
F(sdp_mem_scale_real)
F(sdp_mem_set_value)
F(sdp_mem_check_writeable_at)
F(sdp_mem_check_c_contiguity_at)
F(sdp_mem_check_location_at)
F(sdp_mem_check_num_dims_at)
F(sdp_mem_check_dim_size_at)
F(sdp_mem_check_shape_at)
F(sdp_mem_check_shape_dim_at)
F(sdp_mem_check_same_shape_at)
F(sdp_mem_check_type_at)
F(sdp_dft_point_v00)
F(sdp_dft_point_v01)
F(sdp_flagger_dynamic_threshold)
F(sdp_optimized_weighting)
F(sdp_optimised_indexed_weighting)
F(sdp_phase_rotate_uvw)
F(sdp_phase_rotate_vis)
F(sdp_count_and_prefix_sum)
F(sdp_bucket_sort)
F(sdp_tiled_indexing)
F(sdp_weighting_briggs)
F(sdp_weighting_uniform)

// The processing functions, each with one set of arrays that fit together.
static sdp_SwiFTly* t_sw;
static sdp_Fft* t_fft;
static sdp_Mem* t_fm[2];
static sdp_GridderDirect* t_dir;
static sdp_GridderWtowerUVW* t_wt;
static sdp_GridderUvwEsFft* t_es;
static sdp_FunctionExampleA* t_ex;
static sdp_Pswf* t_ps;
static void sw_on(sdp_Error* st) { t_sw = sdp_swiftly_create(16, 8, 8, 2, st); }
static void sw_off(sdp_Error*) { sdp_swiftly_free(t_sw); }
static void fft_on1(sdp_Error* st)
{
    const int64_t s[] = {4, 6};
    t_fm[0] = sdp_mem_create((sdp_MemType) t_cplx, (sdp_MemLocation) t_loc, 2, s, st); t_fm[1] = sdp_mem_create((sdp_MemType) t_cplx, (sdp_MemLocation) t_loc, 2, s, st);
    t_fft = sdp_fft_create(t_fm[0], t_fm[1], 2, 1, st);
}
static void fft_off(sdp_Error*) { sdp_fft_free(t_fft); sdp_mem_ref_dec(t_fm[0]); sdp_mem_ref_dec(t_fm[1]); }
static void dir_on(sdp_Error* st) { t_dir = sdp_gridder_direct_create(8, 4, 0.25, 4, 0, 0, 4, st); }
static void dir_off(sdp_Error*) { sdp_gridder_direct_free(t_dir); }
static void wt_on(sdp_Error* st) { t_wt = sdp_gridder_wtower_uvw_create(8, 4, 0.25, 4, 0, 0, 2, 2, 2, 2, st); }
static void wt_off(sdp_Error*) { sdp_gridder_wtower_uvw_free(t_wt); }
static void ex_on(sdp_Error* st) { t_ex = sdp_function_example_a_create_plan(2, 2, 1, st); }
static void ex_off(sdp_Error*) { sdp_function_example_a_free_plan(t_ex); }
static void ps_on(sdp_Error*) { t_ps = sdp_pswf_create(0, 6); }
static void ps_off(sdp_Error*) { sdp_pswf_free(t_ps); }
static double t_out[6];
static int64_t t_count;
static int t_int;
static double t_ret; // the value returned
static int t_thr = 1, t_verb = 0; // threads; messages
#define K(name, arrays, call, ...) {#name, arrays, [](sdp_Mem** m, sdp_Error* st) { call; }, __VA_ARGS__},
static const Case TABLE[] = {
K(vector_add, "d[k] d[k] >d[k]", sdp_vector_add(m[0], m[1], m[2], st), "0n 1n 2n")
K(example_a, ">f[4]", sdp_function_example_a_exec(t_ex, m[0], st), "0n 0g0", ex_on, ex_off)
K(fft_create, "z[d,h] >z[d,h]", sdp_fft_free(sdp_fft_create(m[0], m[1], 2, 1, st)), 0)
K(fft_exec, "z[d,h] >z[d,h]", sdp_fft_exec(t_fft, m[0], m[1], st), 0, fft_on1, fft_off)
K(fft_exec_shift, ">z[4,6]", sdp_fft_exec_shift(t_fft, m[0], 1, st), 0, fft_on1, fft_off)
K(fft_norm, ">z[d,h]", sdp_fft_norm(m[0], st), "0t4")
K(fft_phase, ">z[d,h]", sdp_fft_phase(m[0], st), "0t4")
K(generate_pswf, ">d[h]", sdp_generate_pswf(0, 6, m[0], st), "0t2 0t4 0t5")
K(pswf_generate, ">d[h]", sdp_pswf_generate(t_ps, m[0], 0, 0, st), "0t2 0t4 0t5", ps_on, ps_off)
K(prepare_facet, "z[c,h] >z[c,8]", sdp_swiftly_prepare_facet(t_sw, m[0], m[1], 2, st), 0, sw_on, sw_off)
K(extract_from_facet, "z[c,8] >z[c,4]", sdp_swiftly_extract_from_facet(t_sw, m[0], m[1], 2, st), 0, sw_on, sw_off)
K(add_to_subgrid, "z[c,4] >z[c,8]", sdp_swiftly_add_to_subgrid(t_sw, m[0], m[1], 2, st), 0, sw_on, sw_off)
K(add_to_subgrid_2d, "z[4,4] >z[8,8]", sdp_swiftly_add_to_subgrid_2d(t_sw, m[0], m[1], 2, 2, st), 0, sw_on, sw_off)
K(finish_subgrid_inplace, ">z[c,8]", sdp_swiftly_finish_subgrid_inplace(t_sw, m[0], 2, st), 0, sw_on, sw_off)
K(finish_subgrid, "z[c,8] >z[c,h]", sdp_swiftly_finish_subgrid(t_sw, m[0], m[1], 2, st), 0, sw_on, sw_off)
K(finish_subgrid_2d, ">z[8,8]", sdp_swiftly_finish_subgrid_inplace_2d(t_sw, m[0], 2, 2, st), 0, sw_on, sw_off)
K(prepare_subgrid, ">z[c,8]", sdp_swiftly_prepare_subgrid_inplace(t_sw, m[0], 2, st), 0, sw_on, sw_off)
K(prepare_subgrid_2d, ">z[8,8]", sdp_swiftly_prepare_subgrid_inplace_2d(t_sw, m[0], 2, 2, st), 0, sw_on, sw_off)
K(extract_from_subgrid, "z[c,8] >z[c,4]", sdp_swiftly_extract_from_subgrid(t_sw, m[0], m[1], 2, st), 0, sw_on, sw_off)
K(extract_from_subgrid_2d, "z[8,8] >z[4,4]", sdp_swiftly_extract_from_subgrid_2d(t_sw, m[0], m[1], 2, 2, st), 0, sw_on, sw_off)
K(add_to_facet, "z[c,4] >z[c,8]", sdp_swiftly_add_to_facet(t_sw, m[0], m[1], 2, st), 0, sw_on, sw_off)
K(finish_facet, ">z[c,8] >z[c,h]", sdp_swiftly_finish_facet(t_sw, m[0], m[1], 2, st), 0, sw_on, sw_off)
K(degrid_custom, "z[c,i,h,u,a] d[e,f,3] d[w,q] d[r,s] >z[e,f,c,a]", sdp_degrid_uvw_custom(m[0], m[1], m[2], m[3], 0.5, 4, 1e8, 1e6, 0, m[4], st), 0)
K(wstack_degrid, "d[x,x] d[u,3] >z[u,b]", sdp_grid_wstack_wtower_degrid_all(m[0], 1e8, 1e6, m[1], 4, 0.25, 4, 0, 0, 2, 2, 2, 2, 1, 100, t_verb, m[2], t_thr, st), "0t2 0t4 0t5 2t4")
K(wstack_grid, "z[u,b] d[u,3] >d[x,x]", sdp_grid_wstack_wtower_grid_all(m[0], 1e8, 1e6, m[1], 4, 0.25, 4, 0, 0, 2, 2, 2, 2, 1, 100, t_verb, m[2], t_thr, st), "0t4 2t2 2t4 2t5")
K(clamp_single, "d[u,3] i[u]=1 i[u]=3 >i[u] >i[u]", sdp_gridder_clamp_channels_single(m[0], 1, 1e8, 1e6, m[1], m[2], -0.5, 0.5, m[3], m[4], -1, -1, st), "0t2 0t3")
K(clamp_uv, "d[u,3] i[u]=1 i[u]=3 >i[u] >i[u]", sdp_gridder_clamp_channels_uv(m[0], 1e8, 1e6, m[1], m[2], -0.5, 0.5, -0.5, 0.5, m[3], m[4], -1, -1, st), "0t2 0t3")
K(direct_degrid, "z[4,4] d[u,3] i[u]=1 i[u]=2 >z[u,b]", sdp_gridder_direct_degrid(t_dir, m[0], 0, 0, 0, 1e8, 1e6, m[1], m[2], m[3], m[4], st), "0t2 0t3 0t4 0t5 1t2 1t3 1t4 1t5 4t2 4t3 4t4 4t5", dir_on, dir_off)
K(direct_grid, "z[u,b] d[u,3] i[u]=1 i[u]=2 >z[4,4]", sdp_gridder_direct_grid(t_dir, m[0], m[1], m[2], m[3], 1e8, 1e6, m[4], 0, 0, 0, st), "0t2 0t3 0t4 0t5 1t2 1t3 1t4 1t5 4t2 4t3 4t4 4t5", dir_on, dir_off)
K(direct_degrid_correct, ">d[d,d]", sdp_gridder_direct_degrid_correct(t_dir, m[0], 0, 0, 1, st), "0t2 0t3 0t4 0t5 0s", dir_on, dir_off)
K(direct_grid_correct, ">d[d,d]", sdp_gridder_direct_grid_correct(t_dir, m[0], 0, 0, 1, st), "0t2 0t3 0t4 0t5 0s", dir_on, dir_off)
K(grid_correct_pswf, ">d[d,d]", sdp_gridder_grid_correct_pswf(8, 0.25, 4, 0, 0, 4, 4, m[0], 0, 0, st), "0t2 0t3 0t4 0t5 0s")
K(grid_correct_w_stack, ">z[d,d]", sdp_gridder_grid_correct_w_stack(8, 0.25, 4, 0, 0, m[0], 0, 0, 1, 0, st), "0t2 0t3 0t4 0t5 0s")
K(accumulate_scaled, ">z[d,h] z[d,h] z[d,h]", sdp_gridder_accumulate_scaled_arrays(m[0], m[1], m[2], 2, st), "0t2 0t3 0t4 0t5 1t2 1t3 1t4 1t5 2t2 2t3 2t4 2t5")
K(count_nonzero, "z[d,h]", t_ret = sdp_gridder_count_nonzero_pixels(m[0], st), "0t2 0t3 0t4 0t5")
K(util_dft, "d[u,3] i[u]=1 i[u]=2 d[q] d[q,3] >z[u,b]", sdp_gridder_dft(m[0], m[1], m[2], m[3], m[4], 0, 0, 0, 0.25, 4, 1e8, 1e6, m[5], st), "0t2 0t3 0t4 0t5 3t2 3t3 3t4 3t5 4t2 4t3 4t4 4t5 5t2 5t3 5t4 5t5")
K(util_idft, "d[u,3] z[u,b] i[u]=1 i[u]=2 d[y,3] d[d] >z[d,d]", sdp_gridder_idft(m[0], m[1], m[2], m[3], m[4], m[5], 0, 0, 0, 0.25, 4, 1e8, 1e6, m[6], st), "0t2 0t3 0t4 0t5 1t2 1t3 1t4 1t5 4t2 4t3 4t4 4t5 6t2 6t3 6t4 6t5")
K(image_to_flmn, "d[d,j] d[4] >d[y] >d[y,3]", sdp_gridder_image_to_flmn(m[0], 0.25, 0, 0, m[1], m[2], m[3], st), "1g 0t2 0t3 0t4 0t5 2t2 2t3 2t4 2t5 3t2 3t3 3t4 3t5")
K(make_kernel, "d[d] >d[b,d]", sdp_gridder_make_kernel(m[0], m[1], st), 0)
K(make_pswf_kernel, ">d[d,j]", sdp_gridder_make_pswf_kernel(4, m[0], st), "0t2")
K(make_w_pattern, ">z[4,4]", sdp_gridder_make_w_pattern(4, 0.25, 0, 0, 4, m[0], st), 0)
K(residual, "d[d,h] d[d,h] >d[d,h]", sdp_gridder_residual(m[0], m[1], m[2], st), "0t2 0t3 0t4 0t5 1t2 1t3 1t4 1t5 2t2 2t3 2t4 2t5")
K(rms_diff, "d[d,h] d[d,h]", t_ret = sdp_gridder_rms_diff(m[0], m[1], st), "0t2 0t3 0t4 0t5 1t2 1t3 1t4 1t5")
K(scale_inv, ">z[d,h] z[d,h] z[d,h]", sdp_gridder_scale_inv_array(m[0], m[1], m[2], 2, st), "0t2 0t3 0t4 0t5 1t2 1t3 1t4 1t5 2t2 2t3 2t4 2t5")
K(shift_subgrids, ">z[3,4,4]", sdp_gridder_shift_subgrids(m[0], st), "0s 0t4")
K(subgrid_add, ">z[g,h] z[d,i]", sdp_gridder_subgrid_add(m[0], 1, 1, m[1], 2, st), 0)
K(subgrid_cut_out, "z[g,h] >z[d,i]", sdp_gridder_subgrid_cut_out(m[0], 1, 1, m[1], st), 0)
K(sum_diff, "i[h]=1 i[h]=3", sdp_gridder_sum_diff(m[0], m[1], &t_count, -1, -1, st), 0)
K(uvw_bounds, "d[u,3] i[u]=1 i[u]=3", sdp_gridder_uvw_bounds_all(m[0], 1e8, 1e6, m[1], m[2], t_out, t_out + 3, st), "0t2")
K(worst_case_image, ">z[y,y]", sdp_gridder_worst_case_image(0.25, 0.2, m[0], st), 0)
K(wtower_degrid, "z[4,4] d[u,3] i[u]=1 i[u]=2 >z[u,b]", sdp_gridder_wtower_uvw_degrid(t_wt, m[0], 0, 0, 0, 1e8, 1e6, m[1], m[2], m[3], m[4], 0, 5, st), "0t2 0t3 0t4 0t5 1t2 1t3 1t4 1t5 4t2 4t3 4t4 4t5", wt_on, wt_off)
K(wtower_grid, "z[u,b] d[u,3] i[u]=1 i[u]=2 >z[4,4]", sdp_gridder_wtower_uvw_grid(t_wt, m[0], m[1], m[2], m[3], 1e8, 1e6, m[4], 0, 0, 0, 0, 5, st), "0t2 0t3 0t4 0t5 1t2 1t3 1t4 1t5 4t2 4t3 4t4 4t5", wt_on, wt_off)
K(wtower_degrid_correct, ">d[d,d]", sdp_gridder_wtower_uvw_degrid_correct(t_wt, m[0], 0, 0, 1, st), "0t2 0t3 0t4 0t5 0s", wt_on, wt_off)
K(wtower_grid_correct, ">d[d,d]", sdp_gridder_wtower_uvw_grid_correct(t_wt, m[0], 0, 0, 1, st), "0t2 0t3 0t4 0t5 0s", wt_on, wt_off)
K(fft_convolution, "z[b,b] z[c,c] >z[b,b]", sdp_fft_convolution(m[0], m[1], m[2], st), 0)
K(dipole, "d[b] d[b] >z[b,4]", sdp_element_beam_dipole(3, m[0], m[1], 1e8, 0.5, 4, 0, m[2], st), "0n 1n 2n  0g 1g 2g 2s1")
K(harp, "d[b] d[b] d[b] z[3,4] >z[b,4]", sdp_element_beam_spherical_wave_harp(3, m[0], m[1], m[2], 1, m[3], 0, m[4], st), "0n 1n 2n 3n 4n 0g 1g 2g 3g 4g")
K(station, "z[u] d[u] d[u] d[u] d[b] d[b] d[b] i[u]=1 z[c,b] >z[b]", sdp_station_beam_aperture_array(2.5, m[0], m[1], m[2], m[3], 0, 3, m[4], m[5], m[6], m[7], m[8], 0, m[9], 0, 1, 1, st), "0n 1n 2n 3n 4n 5n 6n 7n 8n 9n 4g 5g 6g 7g 8g 9g")
K(dft_v00, "d[b,3] z[b,c,d] d[e,f,c,3] >z[e,f,c,d]", sdp_dft_point_v00(m[0], m[1], m[2], m[3], st), "0t2 0t3 0t4 0t5 1t2 1t3 1t4 1t5 2t2 2t3 2t4 2t5 3t2 3t3 3t4 3t5")
K(dft_v01, "d[b,3] z[b,c,d] d[e,f,3] >z[e,f,c,d]", sdp_dft_point_v01(m[0], m[1], m[2], 1e8, 1e6, m[3], st), "0t2 0t3 0t4 0t5 1t2 1t3 1t4 1t5 2t2 2t3 2t4 2t5 3t2 3t3 3t4 3t5")
K(flagger, "z[b,c,u,a] >i[b,c,u,a]", sdp_flagger_dynamic_threshold(m[0], m[1], 0.5, 2, 2, 2, 1, 1, 2, st), "0t4")
K(rotate_uvw, "d[e,f,3] >d[e,f,3]", sdp_SkyCoord* a = sdp_sky_coord_create("icrs", 0.1, 0.2, 0); sdp_SkyCoord* b = sdp_sky_coord_create("icrs", 0.3, 0.1, 0); sdp_phase_rotate_uvw(a, b, m[0], m[1], st); sdp_sky_coord_free(a); sdp_sky_coord_free(b), 0)
K(rotate_vis, "d[e,f,3] z[e,f,c,d] >z[e,f,c,d]", sdp_SkyCoord* a = sdp_sky_coord_create("icrs", 0.1, 0.2, 0); sdp_SkyCoord* b = sdp_sky_coord_create("icrs", 0.3, 0.1, 0); sdp_phase_rotate_vis(a, b, 1e8, 1e6, m[0], m[1], m[2], st); sdp_sky_coord_free(a); sdp_sky_coord_free(b), 0)
K(count_tiles, "d[c,b,3] d[f]=100000000 z[c,b,f,1] >i[10] >i[9] >i[1]", sdp_count_and_prefix_sum(m[0], m[1], m[2], 10, 4, 4, 0.1, 1, &t_int, m[3], m[4], m[5], st), "1n 3n 4n 5n 3g 4g 5g 1g 2s2 2s3 2t4")
K(bucket_sort, "d[c,b,3] d[f]=100000000 z[c,b,f,1] d[c,b,f,1] >d[108] >d[108] >d[108] >i[108] >z[108] >i[10]=13", sdp_bucket_sort(m[0], m[1], m[2], m[3], 10, 4, 4, 0.1, 1, m[4], m[5], m[6], m[7], m[8], m[9], st), "1n 4n 5n 6n 7n 8n 9n 4g 5g 6g 7g 8g 9g 1g")
K(tiled_indexing, "d[2,3,3] d[2]=100000000 >i[108] >d[108] >d[108] >i[108] >i[10]=13", sdp_tiled_indexing(m[0], m[1], 10, 4, 4, 0.1, 1, 2, 3, 2, m[2], m[3], m[4], m[5], m[6], st), "1n 2n 3n 4n 5n 6n 2g 3g 4g 5g 6g 1g")
K(briggs, "d[c,b,3] d[f]=100000000 >d[h,h,a] d[c,b,f,a] >d[c,b,f,a]", sdp_weighting_briggs(m[0], m[1], 10, 0, m[2], m[3], m[4], st), "1n")
K(uniform, "d[c,b,3] d[f]=100000000 >d[h,h,a] d[c,b,f,a] >d[c,b,f,a]", sdp_weighting_uniform(m[0], m[1], 10, m[2], m[3], m[4], st), "1n")
K(hogbom, "d[b,b] d[h,h] d[4]=3 >d[b,b] >d[b,b] >d[b,b]", sdp_hogbom_clean(m[0], m[1], m[2], 0.5, 0.5, 2, m[3], m[4], m[5], st), 0)
K(ms_clean, "d[b,b] d[h,h] d[4]=3 i[c]=1 >d[b,b] >d[b,b] >d[b,b]", sdp_ms_clean_cornwell(m[0], m[1], m[2], m[3], 0.5, 0.5, 0, m[4], m[5], m[6], st), 0)
};

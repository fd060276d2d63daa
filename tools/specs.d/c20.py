SPECS["C20"] = {
    "harnesses": [{"src": "c20.cpp", "openmp": True, "repo": GU + FFT + ["grid_data/sdp_grid_wstack_wtower.cpp", "grid_data/sdp_gridder_clamp_channels.cpp", "utility/sdp_thread_support.cpp"],
        "configs": grid(grid=[0, 1], wide=[0, 1, 2])
        + grid(grid=[0, 1], wide=[3], same=[0, 1], nr=[5], nc=[1000], nt=[3], th=[3])
        + grid(grid=[0, 1], wide=[3], same=[1], nr=[7], nc=[700], nt=[4], th=[3])
        + grid(grid=[0, 1], wide=[3], same=[1], nr=[2], nc=[1500], nt=[2], th=[2], sched=[1])
        + grid(grid=[0, 1], wide=[0], nr=[2], nc=[1], all=[0], nt=[0], th=[2], order=[2], type=[1], verb=2)
        + grid(grid=[0, 1], wide=[1], nr=[2], nc=[1], all=[0], nt=[2], th=[2], down=[1], type=[2])
        + grid(grid=[0, 1], wide=[2], nr=[2], nc=[1], all=[0], nt=[1], th=[2], type=[3])
        + grid(grid=[0, 1], wide=[3], nr=[3], nc=[2], nt=[2], th=[2], type=[0], frac=1)
        + grid(grid=[0, 1], wide=[2], nr=[1], nc=[2], nt=[1], down=[0, 1])
        + grid(op=9, grid=[0, 1], what=range(26)),
        "thorough": grid(grid=[0, 1], wide=[0, 1, 2], nr=[2], nc=[1, 2], all=[0, 1], nt=[2], th=[2], down=[0, 1])
        + grid(grid=[0, 1], wide=[3], nr=[3, 5], nc=[1000, 1500], nt=[2, 3], th=[2, 3], sched=[1], same=[0, 1])}],
    "bounds": "image of 8 cells, sub-grids of 4; one coordinate of one row anywhere over +-2 sub-grids or w-planes (+-3 planes), up to 2 rows and 2 channels with free visibilities and images, rising or falling frequency; with fixed numbers up to 7500 visibilities in up to 4 chunks, 1-4 threads, and every order in which 2 threads take the chunks (2 rows by 1500 channels in the quick run, 3 and more otherwise); the w-tower kernel is replaced by one with a known effect (the kernel itself is C19); positions within 1e-6 of a boundary between sub-grids or planes left out",
}

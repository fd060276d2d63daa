_fl = ["-DSYM_STRINGS", "-DSWEEP_RACE"]
_free = [(0, 1), (0, 2), (2, 2), (3, 1), (4, 1), (5, 1), (6, 1), (9, 1), (10, 1), (11, 1), (11, 2), (12, 1), (12, 2), (13, 1), (14, 1), (15, 1), (16, 1), (17, 1), (18, 1), (19, 1), (20, 1), (20, 2), (21, 1), (22, 5), (23, 1), (24, 1), (27, 2), (27, 5), (28, 1), (28, 2), (28, 5), (29, 1), (30, 1), (31, 1), (32, 1), (33, 1), (33, 2), (33, 3), (35, 1), (35, 4), (35, 5), (36, 1), (36, 2), (36, 5), (37, 2), (38, 1), (41, 1), (41, 2), (42, 1), (42, 2), (43, 2), (44, 1), (45, 1), (45, 2), (46, 1), (50, 1), (50, 5), (51, 1), (51, 5), (52, 1), (53, 1), (54, 1), (54, 2), (55, 1), (55, 2), (55, 3), (56, 1), (56, 2), (56, 3), (56, 4), (57, 1), (57, 2), (57, 3), (57, 4), (57, 5), (58, 1), (58, 2), (58, 3), (59, 1), (59, 2), (59, 3), (61, 1), (62, 1), (62, 2), (64, 3), (64, 4), (66, 3), (67, 3), (67, 4), (69, 1)]
_some = [(22, 2), (25, 1), (26, 1), (27, 1), (34, 1), (37, 1), (43, 3), (48, 1), (50, 2), (51, 2), (63, 1), (64, 1), (65, 1), (66, 1), (67, 1), (68, 1)]
_one = [(23, 2), (24, 2)]
def _cfgs(pairs, **kw):
    return [c for f, a in pairs for c in grid(race=16, fn=f, sym=a, **kw)]
SPECS["C33"] = {
    "harnesses": [{"src": "c06.cpp", "openmp": True, "repo": ALL, "flags": _fl,
        "configs": grid(race=[16], fn=list(range(70))) + grid(race=[2, 3], fn=[23, 24]) + _cfgs(_free) + _cfgs(_some, n=2) + _cfgs(_one, n=1),
        "thorough": _cfgs(_some, n=[3, 4]) + _cfgs(_one, n=2) + _cfgs([(60, 1)], n=[1, 2])},
      {"src": "c20.cpp", "openmp": True, "repo": GU + FFT + ["grid_data/sdp_grid_wstack_wtower.cpp", "grid_data/sdp_gridder_clamp_channels.cpp", "utility/sdp_thread_support.cpp"],
        "configs": grid(grid=[0, 1], wide=[3], same=[1], nr=[2], nc=[1500], nt=[2], th=[2], sched=[1]) + grid(grid=[0, 1], wide=[3], same=[0], nr=[3], nc=[2], nt=[2], th=[2], type=[0], frac=1),
        "thorough": grid(grid=[0, 1], wide=[3], nr=[3, 5], nc=[1000], nt=[2, 3], th=[2, 3], sched=[1], same=[0, 1])}],
    "bounds": "70 processing functions (all CPU functions that take arrays) with dimensions up to 16, once with one thread and once with 16 (every iteration of a loop in its own thread; 2 and 3 threads as well for the w-stack gridders): equal results, and no two threads touch the same byte, one of them writing, without a lock, atomic or barrier between them; one array at a time with free contents in -2..2 where that stays within reach (the first 1-2 elements for coordinates and flagger-like data-dependent functions), fixed contents for the others; the chunks of the w-stack gridders (2 rows by 1500 channels) taken by 2 threads in every order; sums in another order count as equal; at most one level of parallel loops (inner ones run serially, the OpenMP default)",
}

SPECS["C08"] = {
    "harnesses": [{"src": "c08.cpp", "repo": CORE + ["visibility/sdp_phase_rotate.cpp", "utility/sdp_sky_coord.c"],
        "configs": grid(mode=[0, 1, 2, 3, 4, 6], type=[0, 1], nt=[2], nb=[3]) + grid(mode=[0, 2], type=[0, 1], nt=[3, 1], nb=[1, 4], inplace=1),
        "thorough": grid(mode=[0, 1, 2, 3, 4, 6], type=[0, 1], nt=[1, 3, 5], nb=[1, 4, 7], inplace=[0, 1])}],
    "bounds": "up to 2x3 (thorough 5x7) rows, every right ascension in [0,6.3], every declination in [-1.6,1.6] (new w axis: old declination 0, or 0.4), coordinates in [-1000,1000]",
}

SPECS["C09"] = {
    "harnesses": [{"src": "c09.cpp", "repo": CORE + ["visibility/sdp_phase_rotate.cpp", "utility/sdp_sky_coord.c"],
        "configs": grid(type=[0, 1], nt=2, nb=3, nc=2, np=[1, 4], symdir=0, symf=[0, 1]) + grid(type=[0, 1], nt=1, nb=2, nc=3, np=[1, 4], symdir=1, symf=[0]) + grid(type=[0], nt=3, nb=1, nc=1, np=4, symdir=1, symf=1),
        "thorough": grid(type=[0, 1], nt=[3, 2], nb=[4, 3], nc=[2, 5], np=[1, 4], symdir=[0, 1], symf=[0, 1])}],
    "bounds": "to 2x3x2 and 1x2x3 (thorough 3x4x5) times x baselines x channels, 1 and 4 polarisations; visibilities, coordinates in +-1000 m, frequencies 100-200 MHz and (symdir) all directions symbolic",
}

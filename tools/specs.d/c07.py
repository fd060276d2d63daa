SPECS["C07"] = {
    "harnesses": [{"src": "c07.cpp", "repo": CORE + ["visibility/sdp_dft.cpp"],
        "configs": grid(ver=[0, 1, 2], type=[0, 1], nt=2, nb=[3], nc=2, np=[1, 4], ns=[2]) + grid(ver=[0, 1], type=[0, 1], nt=[1, 2], nb=1, nc=[3], np=4, ns=[1, 3]),
        "thorough": grid(ver=[0, 1, 2], type=[0, 1], nt=[3, 1], nb=[4], nc=[3, 2], np=[1, 4], ns=[4, 1, 6])}],
    "bounds": "to 2x3x2 and 2x1x3 (thorough 3x4x3) times x baselines x channels, 1 and 4 polarisations, 1-3 (thorough 6) sources; directions, fluxes, coordinates in +-1000, frequencies symbolic; complex double and float output",
}

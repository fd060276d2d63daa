SPECS["C38"] = {
    "harnesses": [{"src": "c38.cpp", "repo": CORE + FFT + ["fourier_transforms/sdp_pswf.cpp", "grid_data/sdp_gridder_wtower_height.cpp"],
        "configs": grid(op=0, k=[1, 2, 5, 8], deflt=[0, 1]) + grid(op=0, k=3, fc=1) + grid(op=0, k=6, fa=[1, 2, 3], deflt=[0, 1])
                 + grid(op=1, shear=[0, 2]) + grid(op=1, n=12, m=6, fe=5, deflt=1, ns=4, frac=5) + grid(op=1, n=8, m=6, ns=2, frac=9) + grid(op=2, n=[6, 8, 9, 12], order=[0, 2]),
        "thorough": grid(op=0, k=[3, 12, 20], deflt=[0, 1]) + grid(op=1, n=[8, 16], m=[4, 8], shear=[0, 3], ns=[0, 4, 5], fe=3) + grid(op=1, n=[12, 16], m=[4, 8], shear=[0, 3], ns=[0, 5], fe=5) + grid(op=2, n=[16, 20, 24])}],
    "bounds": "the search: errors that do not fall with w, free for up to 7 w-planes (thorough 19) and beyond the target after that, free or default target error, failures of the kernel or of a measurement; the measurement: images of 8 and 12 pixels (16), sub-grids of 4 and 6 (8), 2 to 4 samples per side (5), w_step and the grid correction free; worst-case images of 6 to 12 pixels (24) for every field of view; the w-tower kernel itself is a stand-in here (C18, C19)",
}

SPECS["C12"] = {
    "harnesses": [{"src": "c12.cpp", "repo": CORE + ["visibility/sdp_tiled_functions.cpp"],
        "configs": grid(nb=1, n=10, sup=[0, 1, 2], tu=4, tv=2, indexed=[0, 1], full=2)
          + grid(nb=2, n=[10, 9], sup=1, tu=4, tv=4, indexed=[0, 1], full=1)
          + grid(nb=1, nt=2, n=12, sup=[1, 3], tu=4, tv=2, indexed=0, full=0) + grid(nb=1, n=12, sup=0, tu=4, tv=8, indexed=0, full=0) + grid(nb=1, n=8, sup=1, tu=4, tv=4, indexed=0, full=0)
          + grid(nb=1, nc=2, n=9, sup=1, tu=2, tv=4, indexed=[0, 1], full=0, type=[0, 1])
          + grid(nb=1, n=33, sup=4, tu=32, tv=16, indexed=[0, 1], full=1),
        "thorough": grid(nb=3, n=[9, 11, 13], sup=[0, 1, 2], tu=4, tv=4, indexed=[0, 1], full=1)}],
    "bounds": "grids of 9-33 cells, power-of-two tiles, kernel supports 0-4, 1-3 visibilities anywhere in or outside the grid (positions within 1e-6 of a cell edge left out), one polarisation",
}

SPECS["C10"] = {
    "harnesses": [{"src": "c10.cpp", "repo": CORE + ["visibility/sdp_weighting.cpp"],
        "configs": grid(briggs=[0, 1], type=[0, 1], nb=2, nc=1, np=[1], g=[4], pre=[0, 1], r=0) + grid(briggs=[0, 1], type=[0], nb=1, nc=2, np=[2], g=[4, 5], r=1)
         + grid(briggs=[0, 1], type=[0, 1], nt=2, nb=1, nc=1, np=[4], g=[3], r=-4),
        "thorough": grid(briggs=[0, 1], type=[0, 1], nb=3, nc=1, np=[1, 2], g=[4, 6], pre=[0, 1], r=[0, 1]) + grid(briggs=[0, 1], type=[0, 1], nt=2, nb=1, nc=2, np=[1, 4], g=[5], r=[-4, 4])}],
    "bounds": "2 visibilities (thorough 3-4), weights grids of 3x3 to 5x5 (thorough 6x6) cells with every position of the first visibility including all sides outside the grid, uv and weights symbolic, exact power-of-two coordinate scaling; robustness -2, 0, 0.5",
}

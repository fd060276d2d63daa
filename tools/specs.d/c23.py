SPECS["C23"] = {
    "harnesses": [{"src": "c23.cpp", "repo": CORE + ["grid_data/sdp_degrid_uvw_custom.cpp"],
        "configs": grid(k=2, kw=2, n=6, o=3, ow=2, z=2, conj=0, wide=0) + grid(k=3, kw=2, n=6, o=3, ow=2, z=3, conj=1, wide=0)
          + grid(k=3, kw=1, n=7, o=2, ow=1, z=1, wide=1) + grid(k=3, kw=1, n=8, o=1, ow=1, z=1, wide=1) + grid(k=2, kw=2, n=8, m=[6, 10], o=1, ow=2, z=2, wide=1)
          + grid(k=2, kw=1, n=6, o=2, ow=[1, 3, 4], z=1, wide=2)
          + grid(k=2, kw=2, n=6, o=2, ow=2, z=2, nc=2, np=[1, 4], down=[0, 1], wide=0) + grid(k=2, kw=1, n=6, o=2, ow=1, z=1, nb=2, nt=1, conj=1, wide=2)
          + grid(op=9, what=range(16)),
        "thorough": grid(k=[2, 3, 4], kw=[1, 2, 3], n=[8, 9], o=[2, 3, 4], ow=[2, 3], z=3, conj=[0, 1], wide=1, np=4)}],
    "bounds": "grids of 6-10 cells a side and up to 3 planes, kernels of 2-4 by 1-3 values with oversampling 1-4, 1-4 visibilities anywhere in or outside the grid (positions within 1e-6 of a rounding tie left out); for rectangular grids the centre in v is taken at half the u size, as the code and its test reference do",
}

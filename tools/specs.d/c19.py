SPECS["C19"] = {
    "harnesses": [{"src": "c19.cpp", "repo": GU + FFT + ["grid_data/sdp_gridder_wtower_uvw.cpp", "grid_data/sdp_gridder_grid_correct.cpp"],
        "configs": grid(grid=[0, 1], wide=[0, 1, 2]) + grid(grid=[0, 1], n=8, k=4, o=3, kw=4, ow=3, wide=0, ou=2, ov=-3, owp=-2, shear=1)
          + grid(grid=[0, 1], n=6, k=4, o=3, kw=4, ow=3, wide=1, ou=2, ov=-3, owp=-2, shear=1) + grid(grid=[0, 1], n=4, k=2, o=1, kw=4, ow=3, wide=2, owp=-2)
          + grid(grid=[0, 1], n=4, k=3, o=2, kw=3, ow=1, wide=[1, 2], owp=1)
          + grid(grid=[0, 1], n=6, k=4, o=1, kw=2, ow=4, wide=[0, 1], order=2, type=[1, 2])
          + grid(grid=[0, 1], n=4, nr=1, nc=2, wide=0, o=1, ow=1, down=[0, 1]) + grid(grid=[0, 1], n=4, nr=1, nc=2, wide=2, o=1, ow=1, down=1) + grid(grid=[0, 1], n=4, nr=1, nc=3, wide=4, sel=1, down=[0, 1]) + grid(grid=[0, 1], n=4, nr=2, nc=1, o=1, ow=1, wide=4, sel=1, rows=2)
          + grid(op=9, grid=[0, 1], what=range(19)),
        "thorough": grid(grid=[0, 1], n=[6, 8], k=[2, 4], o=[2, 4], kw=[2, 4], ow=3, wide=[0, 1, 2], ou=-1, ov=2, owp=[0, 3], symimg=1) + grid(grid=[0, 1], n=4, nr=1, nc=2, wide=2, o=1, ow=1, down=0) + grid(grid=[0, 1], n=4, nr=3, nc=1, o=1, ow=1, wide=4, sel=1, rows=2)}],
    "bounds": "sub-grids of 4-8 cells, kernels of 2-4 values in uv and w with oversampling 1-4, one coordinate at a time anywhere inside or outside the sub-grid and over 3 w-planes (rounding ties and positions within 1e-6 of a plane boundary left out), up to 3 channels with rising or falling frequency, up to 2 rows with every row and channel range, free visibilities; degridded image values fixed in the quick run, free in the thorough one; channel ranges lie inside the visibility array (documented duty of the caller)",
}

PLAN = GU + FFT + ["grid_data/sdp_gridder_grid_correct.cpp", "grid_data/sdp_gridder_direct.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp"]
SPECS["C16"] = {
    "harnesses": [{"src": "c16.cpp", "repo": GU,
        "configs": grid(op=0, type=range(5), nx=2, ny=2, order=2, order2=1, shear=[0, 1], flux=1, taper=1)
                 + grid(op=0, type=[0, 3], nx=[3, 1], ny=[2], order=1, order2=2, shear=[1], flux=[0, 1], taper=[0, 1])
                 + grid(op=[1, 2], type=[0, 1], nr=2, nch=2, nx=2, ns=3, order=[2], order2=1, limits=[0, 1], taper=[1], theta0=[0, 1])
                 + grid(op=[1, 2], type=[0], nr=[1, 3], nch=[1], nx=[1, 3], ns=2, order=[1], order2=0, limits=[1], taper=[0], offu=[0, -7], offw=[0, -2]),
        "thorough": grid(op=0, type=range(5), nx=[3], ny=[4], order=[0, 2], order2=[0, 1], shear=[0, 1], flux=[0, 1], taper=[0, 1])
                 + grid(op=[1, 2], type=[0, 1], nr=[3], nch=[3], nx=[3], ns=[4], order=[0, 1, 2], order2=[0, 1, 2], limits=[0, 1], taper=[0, 1])},
        {"src": "c16d.cpp", "repo": PLAN,
         "configs": grid(op=0, type=[0, 1, 2], n=2, order=[0, 1], shear=[0, 2], free=2) + grid(op=0, type=0, n=3, shear=1, free=1, sup=6, nc=1) + grid(op=1, type=[0, 1], n=2, nc=1, shear=[0, 2]) + grid(op=1, type=0, n=3, nc=1, shear=[0, 2]) + grid(op=1, type=0, n=2, nr=2, nc=2, order=2),
         "thorough": grid(op=0, type=[0, 2], n=[3, 4], shear=[0, 1], free=3, nr=2) + grid(op=1, type=0, n=[3, 4], nr=2, nc=2, shear=[0, 1], order=[0, 1, 2])}],
    "bounds": "images to 3x2 (thorough 3x4), up to 3 uvw rows x 2 channels (3) x 3 directions (4-9), all supported types, strided and contiguous, with and without channel limits/taper/offsets; uvw, fluxes, visibilities, taper, theta, w_step, channel width symbolic, one direction symbolic; the direct gridder (plan, degrid, grid) with images of 2x2 and 3x3 (thorough 4x4), at most 3 image values free at a time",
}

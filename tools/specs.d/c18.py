SPECS["C18"] = {
    "harnesses": [{"src": "c18.cpp", "repo": GU + ["grid_data/sdp_gridder_grid_correct.cpp"],
        "configs": grid(op=0, type=[0, 1, 2, 3], n=6, nl=4, nm=3, shear=[0, 2], order=2)
                 + grid(op=0, type=[0, 2], n=[5, 4, 7], nl=4, nm=[3, 4], shear=1, order=1, wsup=[0, 6], ws=[5, 60])
                 + grid(op=1, type=[0, 1], n=[6, 5], nl=2, nm=5, shear=[0, 1], inv=[0], order=[0, 2]) + grid(op=1, type=[0, 1], n=[6, 5], nl=4, nm=1, shear=[0, 1], inv=[1], order=[0, 2]),
        "thorough": grid(op=0, type=[0, 1, 2, 3], n=[8, 9], nl=[5, 8], nm=[6, 3], shear=[0, 1, 3], order=[0, 1, 2], wsup=[0, 4, 8], ws=[5, 60])
                 + grid(op=1, type=[0, 1], n=[8, 9], nl=[4, 5], nm=[3], shear=[0, 2], inv=[0, 1], order=[0, 1, 2])},
        {"src": "c16d.cpp", "repo": GU + FFT + ["grid_data/sdp_gridder_grid_correct.cpp", "grid_data/sdp_gridder_direct.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp"],
         "configs": grid(op=2, type=[0, 1, 2], fwd=[0, 1]) + grid(op=3, type=[0, 1, 2], fwd=[0, 1]) + grid(op=3, type=0, fwd=[0, 1], size=5, nl=2, nm=4, sup=6, wsup=8, ws=60, order=2, wo=-2, shear=2),
         "thorough": grid(op=[2, 3], type=[0, 1, 2], fwd=[0, 1], size=[7, 8], nl=[4, 5], nm=[3], order=[0, 1, 2], wo=[-1, 0])}],
    "bounds": "facets to 4x4 in images of 4-7 pixels (thorough 8x6 of 9), every facet offset inside the image, pixel values and (w-correction) w_step in [0.5,20] symbolic, w_offset -2..3; theta 0.2, shears, supports 4-8 and w_step of the PSWF correction at the listed concrete values; the same through the plans of the direct and the w-tower gridder",
}
SPECS["C21"] = {
    "harnesses": [{"src": "c21.cpp", "repo": GU,
        "configs": grid(op=0, type=[0, 1], s=[4, 5], ov=[1, 3], order=[0], order2=[0, 2])
                 + grid(op=0, type=[0, 1], s=[8], ov=[4], order=[2], order2=[1])
                 + grid(op=0, pswf=1, type=[0, 1], s=[4, 5, 8], sup=[4, 6], ov=[2, 5], order2=[0])
                 + grid(op=1, n=[3, 4], shear=[0, 2], order=[0, 2]) + grid(op=1, n=3, dn0=-1, dn1=[0, 1]) + grid(op=1, n=3, dn0=[0, 1], dn1=-1)
                 + grid(op=2, fov=[10, 30], hu=[0, 2, -1], hv=[0, -3], x0=[0, 1]) + grid(op=3),
        "thorough": grid(op=0, type=[0, 1], s=[1, 2, 3, 6, 10, 13], ov=[1, 2, 7], order=[0, 2], order2=[0, 1, 2])
                 + grid(op=0, pswf=1, type=[0, 1], s=[2, 6, 7, 12, 16], sup=[4, 6, 8], ov=[1, 8], order2=[0, 2])
                 + grid(op=1, n=[1, 2, 5, 6, 7, 8], shear=[0, 1, 2, 3], order=[0, 1, 2])
                 + grid(op=2, fov=[5, 10, 20, 30, 40], hu=[0, 1, 2, -1], hv=[0, 1, -3], x0=[0, 1])}],
    "bounds": "windows and kernels with support 4-8 (thorough 1-16), oversampling 1-5 (thorough 8), float and double, window values symbolic; w-patterns of 3-4 (thorough 1-8) pixels with symbolic w_step in [-30,30], theta 0.2; w-step for symbolic theta and x0 at the listed fields of view and shears, and for symbolic shear_u in [0.02,0.3] with shear_v 0 and fov 0.25",
}

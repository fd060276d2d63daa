SPECS["C02"] = {
    "harnesses": [{"src": "c02.cpp", "repo": CORE,
        "configs": grid(nd=1, ns=[0, 1], d0=[3, 4], type=[0, 1], order=[0, 2]) + grid(nd=2, ns=[0, 1], d0=2, d1=3, type=0, order=[0, 1, 2]) + grid(nd=2, ns=2, d0=2, d1=3, order=2) + grid(nd=2, ns=2, d0=2, d1=2, type=1, order=0, ro=[0, 1])
                 + grid(nd=3, ns=1, d0=1, d1=1, d2=2, order=[0, 1], ro=1) + grid(full=1, nd=1, ns=1) + grid(full=1, nd=2, ns=[1, 2], order=[0, 2]),
        "thorough": grid(nd=2, ns=[1, 2], d0=[3, 4], d1=[3, 4], type=[0, 1, 2], order=[0, 1, 2]) + grid(nd=3, ns=[1, 2, 3], d0=2, d1=1, d2=2, type=[0, 1], order=[0, 1, 2]) + grid(full=1, nd=3, ns=[2, 3], order=[0, 1])}],
    "bounds": "parents of 1-3 dimensions, sides 1-4, any layout; every offset and slice shape from -1 to side+1 with element-wise address checks, and acceptance for every 64-bit offset and shape",
}

SPECS["C03"] = {
    "harnesses": [{"src": "c03.cpp", "repo": CORE,
        "configs": grid(op=0, type=[0, 1, 2, 3, 4], nd=[1, 2, 3], order=[0, 1, 2]) + grid(op=1, type=[0, 3, 4], nd=[1, 2], d1=1) + grid(op=2, type=[0, 1, 4], nd=[1, 2], order=[0, 1, 2])
                 + grid(op=3, type=[0, 1, 2, 3, 4], nd=[1, 2, 3], order=[0, 1, 2]) + grid(op=4, type=[0, 3], nd=[1, 2], order=[0, 1, 2]) + grid(op=4, type=4, nd=3, d0=2, order=0)
                 + grid(op=5, type=list(range(6)), nd=[1, 2, 3], order=[0, 2]) + grid(op=6, type=[0, 1, 2, 3], nd=[1, 3]),
        "thorough": grid(op=0, type=[0, 1, 2, 3, 4], nd=3, d0=[1, 4], d1=[1, 3], d2=[2, 3], order=[0, 1, 2]) + grid(op=1, type=[0, 1, 2, 3, 4], nd=[2], d0=[3, 4], d1=2) + grid(op=2, type=[2, 3], nd=[2, 3], d0=[2, 4], order=[0, 1, 2])
                 + grid(op=4, type=[0, 1, 2, 3, 4], nd=3, d0=3, order=[0, 1, 2])}],
    "bounds": "blocks of 1-3 dimensions with sides to 3 (thorough 4) in C, Fortran and strided layouts, all element types; every offset/count of partial copies and clears; contents symbolic, and the gaps between elements observed",
}

SPECS["C01"] = {
    "harnesses": [{"src": "c01.cpp", "repo": CORE,
        "configs": grid(op=0, type=list(range(6)), nd=[0, 1, 2], wrap=[0, 1]) + grid(op=0, type=[4, 5], nd=[3], wrap=[0], max=2) + grid(op=0, type=[4], nd=[3], wrap=[1], max=1) + grid(op=0, type=[4], nd=2, wrap=0, max=4)
                 + grid(op=1, type=[0, 1, 5], nd=1) + grid(op=1, type=[2, 3, 4], nd=2) + grid(op=2),
        "thorough": grid(op=0, type=list(range(6)), nd=[3], wrap=[0, 1], max=[2, 3]) + grid(op=0, type=[1, 5], nd=4, wrap=[0, 1], max=2) + grid(op=1, type=list(range(6)), nd=[1, 2], minus=[0, 1], all=1)}],
    "bounds": "all element types; every shape with sides 0-3 and up to 3 dimensions (thorough 4), every stride (wrapped) in +-40 elements; every 64-bit size in one dimension, times 2^{0,2,20,31,32,33,60,62} (thorough every 2^k and 2^k-1) in a second",
}

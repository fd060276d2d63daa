SPECS["C04"] = {
    "harnesses": [{"src": "c04.cpp", "repo": CORE,
        "configs": grid(op=0, type=[3, 4], cst=[0, 1], nd=[1, 2, 3, 4]) + grid(op=0, type=[1, 2, 5], cst=[0, 1], nd=2) + grid(op=0, type=3, cst=[0, 1], nd=5) + grid(op=1) + grid(op=2, type=[3, 4], cst=[0, 1], nd=[1, 2, 3, 4, 5], order=[0, 1, 2], rot=[0, 1]),
        "thorough": grid(op=0, type=[1, 2, 4, 5], cst=[0, 1], nd=[1, 3, 4, 5])}],
    "bounds": "every combination of 6 element types, 1-5 dimensions, location, read-only flag and earlier status against views of 5 element types (const and not) and 1-5 dimensions; strides symbolic; every element of blocks with sides 2-4 in three layouts",
}

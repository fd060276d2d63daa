SPECS["C14"] = {
    "harnesses": [{"src": "c14.cpp", "repo": GU,
        "configs": grid(op=0, type=[0, 1], axis=[0, 1, 2], nr=1, nch=3, order=[1, 2], order2=2)
                 + grid(op=0, type=0, axis=[0, 2], nr=2, nch=2, order=[0], order2=0)
                 + grid(op=1, nr=[1, 3, 5], order=[0, 2], order2=[0, 2]),
        "thorough": grid(op=0, type=[0, 1], axis=[0, 1, 2], nr=2, nch=4, order=[0], order2=[0, 2]) + grid(op=0, type=0, axis=[1], nr=3, nch=2, order=0, order2=0)}],
    "bounds": "1-2 rows of symbolic uvw in [-300,300] m (thorough 3), 2-3 channels (4) with every start/end pair incl. empty, f0 in [1e8,2e8], df in [0,1e6] symbolic; sum_diff: up to 5 rows, every [start,end) range, values 0..1e9",
    "assumptions": ["non-negative channel width"],
}

SPECS["C26"] = {
    "harnesses": [{"src": "c26.cpp", "repo": CORE + ["fourier_transforms/sdp_pswf.cpp"],
        "configs": grid(op=0, c2=[1, 2, 4, 6, 8, 10, 12, 16]) + grid(op=1, m=0, c2=[0, 1, 2]) + grid(op=1, m=2, c2=[0, 1]) + grid(op=2, type=[0, 1, 2, 3], m=[0, 1], c2=[4, 8], order=[0, 2]),
        "thorough": grid(op=0, c2=list(range(1, 20))) + grid(op=1, m=[0, 2], c2=[0, 2, 4, 6, 8, 12]) + grid(op=2, type=[0, 1, 2, 3], m=[0, 1, 2], c2=[0, 4, 6, 8, 12], order=[0, 2], nmax=17)}],
    "bounds": "c = k*pi/2 with k to 16 (thorough 19) for m=0; every x in [-50,50] for evaluation (c to pi, thorough 6*pi); generated tables of 1-9 (thorough 17) values for m 0-1",
}

SPECS["C11"] = {
    "harnesses": [{"src": "c11.cpp", "repo": CORE + ["visibility/sdp_flagger.cpp"],
        "configs": grid(type=[0, 1], nt=1, nc=3, mask=[1, 2, 4], win=[0, 1, 2], tm=20)
          + grid(type=[0], nt=2, nc=3, mask=[1, 8, 16], win=[0, 1], hist=[1, 2]) + grid(type=[0, 1], nt=3, nc=[3, 4], mask=[1 << 6, 1 << 4], win=[0, 2], hist=[1, 2, 5])
          + grid(type=0, nt=2, nc=5, step=[2, 3], mask=[2, 128, 64], win=[1])
          + grid(type=0, nt=2, nc=3, nb=2, np=2, sb=[0, 1], sp=[0, 1], mask=[16], win=[1])
          + grid(type=[0], nt=[4], nc=3, mask=0, shift=[1, 2], win=0, hist=[3, 4], tm=10000, tv=10000),
        "thorough": grid(type=[0], nt=2, nc=3, mask=[3, 9], win=[0, 1], hist=[1, 2]) + grid(type=[0, 1], nt=4, nc=4, mask=[1 << k for k in range(0, 16, 3)], win=[1], hist=[2, 3])}],
    "bounds": "up to 3 times x 5 channels x 2 baselines x 2 polarisations, windows 0-2, sampling steps 1-3, median history 1-5, one amplitude a free real in [1, 40] at each of several positions (two in the thorough tier) with the others fixed, or all amplitudes of one time moved together by a free offset in [0, 40]; visibilities lie on the real or imaginary axis",
}

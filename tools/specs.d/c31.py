SPECS["C31"] = {
    "harnesses": [{"src": "c31.cpp", "openmp": True, "repo": CORE + ["station_beam/sdp_station.cpp"],
        "configs": grid(pol=[0, 1, 2], data=[0, 1, 2]) + grid(pol=[0, 1], data=[0, 1], norm=1, flat=[0, 1], k=1, ne=2)
          + grid(pol=[1, 2], data=[0, 1], ex=[0, 1], ey=[0, 1], ne=2, np=1, tot=3) + grid(pol=[0, 1], data=[1, 2], type=1, norm=1, ne=2)
          + grid(pol=0, off=0, ooff=[0, 2], np=[1, 2, 0], data=1) + grid(op=9, what=range(1, 44)),
        "thorough": grid(pol=[0, 1, 2], data=[0, 1, 2], ne=[1, 4, 5], np=[3], tot=5, otot=5, norm=[0, 1], type=[0, 1])}],
    "bounds": "up to 3 elements and 2 points out of 4 (thorough: 5 elements, 3 points) with free coordinates, directions, weights and responses in -2..2, every response index, fixed wave numbers; scalar and polarised (4 and 2x2), single and double precision",
}

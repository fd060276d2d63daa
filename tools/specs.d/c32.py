SPECS["C32"] = {
    "harnesses": [{"src": "c32.cpp", "openmp": True, "repo": CORE + ["station_beam/sdp_element_dipole.cpp", "station_beam/sdp_element_spherical_wave_harp.cpp"],
        "configs": grid(op=0, pol=[0, 1, 2], pick=[0, 1, 2]) + grid(op=0, pol=1, stride=[4, 6], off=[0, 1, 2], np=1, rows=3) + grid(op=0, pol=0, stride=[1, 2], off=[0, 1], np=2, rows=4)
          + grid(op=0, pol=0, type=1, pick=3) + grid(op=0, pol=1, type=1, f=1, len=1) + grid(op=0, pol=1, np=0) + grid(op=2) + grid(op=3, l=range(1, 9))
          + grid(op=1, l=[1, 2, 3], np=1) + grid(op=1, l=2, np=2, off=[0, 1], two=1, fix=1) + grid(op=1, l=2, type=1, fix=1) + grid(op=1, l=[0, 2], np=[0, 1], fix=2)
          + grid(op=9, harp=0, what=[0, 1, 4, 5, 6, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20, 21, 24, 25]) + grid(op=9, harp=1, what=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25]),
        "thorough": grid(op=3, l=range(9, 13)) + grid(op=0, pol=[0, 1, 2], np=3, rows=4) + grid(op=0, pol=[1, 2], np=3, rows=4, type=1) + grid(op=1, l=3, np=[2], fix=[0, 1], type=[0, 1])}],
    "bounds": "up to 2 directions (thorough: 3) anywhere with 1 - (component along the dipole)^2 > 0.01, two frequencies and lengths for the dipole plus any length at the zenith; spherical waves up to degree 3 with free coefficients and azimuths at 8 zenith angles and the clamped zenith; the Legendre functions up to degree 8 (thorough: 12) as polynomials in free cosine and sine",
}

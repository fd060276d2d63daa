CLEAN = CORE + FFT + ["numeric_functions/sdp_fft_convolution.cpp"]
SPECS["C29"] = {
    "harnesses": [{"src": "c29.cpp", "repo": CLEAN + ["clean/sdp_hogbom_clean.cpp"],
        "configs": grid(n=2, cycles=[1, 2, 3], what=1, thr=[4, -80]) + grid(n=2, cycles=2, what=9) + grid(n=2, cycles=2, what=1, gain=[1, 16])
          + grid(n=2, cycles=[1, 2], what=2, thr=[4]) + grid(n=2, cycles=1, what=[3, 4, 5, 7, 15]) + grid(n=2, cycles=2, what=4)
          + grid(n=1, cycles=3, what=[1, 9]) + grid(n=3, cycles=1, what=1, thr=4) + grid(n=3, cycles=2, what=1, thr=4, every=4)
          + grid(n=2, cycles=1, what=1, size=[1, 2, 4, 5]) + grid(n=3, cycles=1, what=1, size=[1, 2, 5], sx=1, sy=4, deg=[0, 75])
          + grid(type=1, n=2, cycles=[1, 2], what=1, thr=4) + grid(op=1, size=[1, 3, 5, 2, 4])
          + grid(op=9, what=list(range(26)) + list(range(30, 36)) + [40, 41, 42, 44]),
        "thorough": grid(n=2, cycles=4, what=1, thr=[4, -80]) + grid(n=3, cycles=2, what=1, thr=4) + grid(n=3, cycles=3, what=1, thr=4, every=2) + grid(n=2, cycles=2, what=[3, 7, 11]) + grid(n=4, cycles=1, what=1, thr=4, size=[3, 4])}],
    "bounds": "images of 1x1 to 3x3 pixels (thorough: 4x4) with up to 3 cycles (thorough: 4), every pixel of the dirty image in [-4,4], or every element of the PSF in [-0.75,0.75], or the gain in (0,1], or the threshold in [-2,3] free (all of them together for one cycle), clean beams of 1 to 5 pixels; images whose two largest residuals tie within 1e-4 and thresholds met within 1e-4 are left out; the vendored FFT library is replaced by the definition of the DFT",
}

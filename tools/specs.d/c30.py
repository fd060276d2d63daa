SPECS["C30"] = {
    "harnesses": [{"src": "c30.cpp", "repo": CLEAN + ["clean/sdp_ms_clean_cornwell.cpp"],
        "configs": grid(n=2, ns=[1, 2], cycles=[0, 1], what=1, thr=[4, -8]) + grid(n=2, ns=2, sc0=4, sc1=2, cycles=[1, 2], what=1, thr=4, every=2) + grid(n=2, ns=3, cycles=1, what=1, thr=4, every=2)
          + grid(n=2, ns=2, cycles=2, what=1, thr=4, every=2) + grid(n=2, ns=2, cycles=1, what=[4, 8, 9])
          + grid(n=3, ns=1, cycles=1, what=1, thr=4, every=3) + grid(type=1, n=2, ns=2, cycles=1, what=1, thr=4) + grid(op=1)
          + grid(op=9, what=list(range(26)) + list(range(30, 37)) + [40, 41, 42, 44]),
        "thorough": grid(n=2, ns=2, sc0=4, sc1=2, cycles=1, what=1, thr=4) + grid(n=2, ns=3, cycles=1, what=1, thr=[4, -8]) + grid(n=2, ns=2, cycles=2, what=[1, 9], thr=4) + grid(n=2, ns=3, cycles=2, what=1, thr=4, every=2) + grid(n=3, ns=2, cycles=1, what=1, thr=4, every=3) + grid(n=4, ns=2, cycles=1, what=1, thr=4, every=8)}],
    "bounds": "images of 2x2 and 3x3 pixels (thorough: 4x4), 1 to 3 scales out of 0, 2, 4, 8, up to 2 cycles, dirty-image pixels in [-4,4] (all of them for 2x2 and one cycle), gain in (0,1] or threshold in [-2,3] free; the PSF is one lop-sided pattern; images whose two largest biased peaks tie within 1e-4, peaks within 1e-4 of zero and thresholds met within 1e-4 are left out; the vendored FFT library is replaced by the definition of the DFT",
}

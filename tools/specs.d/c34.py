SPECS["C34"] = {
    "harnesses": [{"src": "c06.cpp", "repo": ALL, "configs": grid(leak=1, fn=[0] + list(range(2, 70))) + grid(leak=1, fn=1, fit=1), "flags": ["-DSYM_STRINGS"]},
        {"src": "c06n.cpp", "repo": ALL, "configs": grid(leak=1, fn=[0, 1] + list(range(3, 13))), "flags": ["-DSYM_STRINGS"]},
        {"src": "c25.cpp", "repo": ["fourier_transforms/sdp_fft_padded_size.cpp"], "configs": [{"leak": 1, "lo": -3, "hi": 40}, {"leak": 1, "lo": 900, "hi": 910}, {"leak": 1, "op": 1, "n": 50, "lo": 90, "hi": 110}]}],
    "bounds": "70 processing functions (all CPU functions that take arrays) with one set of fitting arguments each (dimensions up to 16), and with one array of another type, size, number of dimensions, location or writability, so that the call is refused early, late or not at all; 13 sets of numeric parameters around their limits; inputs are write-protected (and outputs as well when the call must be refused), every block is freed exactly once, nothing allocated since before the call is left over, plans and arrays created and freed around it included; two functions of the examples directory only with fitting arguments; failing allocations left out",
}

SPECS["C13"] = {
    "harnesses": [{"src": "c13.cpp", "repo": CORE + ["grid_data/sdp_gridder_clamp_channels.cpp"],
        "configs": grid(op=[0, 2], type=0, neg=[0, 1], nch=3, dim=[0], nr=1, order=1)
                 + grid(op=[3], type=0, neg=[0, 1], nch=3, dim=[0], nr=1, order=1, cmm=1)
                 + grid(op=[3], type=0, neg=[0, 1], nch=2, dim=[0], nr=1, order=1, cmm=2)
                 + grid(op=[1], type=[0], neg=[0, 1], nch=2, dim=[0], nr=1, order=2, cmm=1)
                 + grid(op=[0, 2, 3, 1], zero=1, nch=2, nr=1, dim=0)
                 + grid(op=[0, 1], neg=[0, 1], nch=2, nr=3, row=1, r0=[1, 2], r1=[2, 3], dim=0, si=1, ei=2, type=1, order2=2, cmm=1)
                 + grid(op=[0, 2], neg=[0, 1], nch=4, nr=2, row=1, dim=[1, 2], si=1, ei=3, type=[0], cmm=1) + grid(op=1, neg=[0, 1], nch=4, nr=2, row=1, si=1, ei=3, type=[0], cmm=1)
                 + grid(op=[10, 12], type=[0, 1], nch=4, dim=[0, 2], si=[0, 1], ei=[4, 3], df4=[1, 0])
                 + grid(op=[11], type=[0], nch=3, df4=[1, 0], fixd=[0, 1], fixv=[-2, 0, 1]),
        "thorough": grid(op=[1], type=[0], neg=[0, 1], nch=2, dim=[0], nr=1, order=2) + grid(op=[3], type=[0, 1], neg=[0, 1], nch=2) + grid(op=[0, 1, 2, 3], type=[0, 1], neg=[0, 1], nch=[5], f0=[100, 1400], df=[50, 5000], si=[0, 2], ei=[5, 4])}],
    "bounds": "exact inclusive/exclusive limits at integer limits in [-20,20] for coordinates that are multiples of 4 with scaling by exact binary fractions; otherwise one symbolic row out of 1-3, u (and v) symbolic in [-300,300] m with |u| > 0.1 or u = 0, range limits symbolic in [-500,500] wavelengths, 2-4 channels (thorough 5), f0 100-1400 MHz, df 50 kHz-5 MHz concrete; coordinates within 1e-4 wavelengths of a limit may go either way, except that adjacent ranges never share a channel",
    "assumptions": ["non-negative channel width"],
}

_S = [dict(N=16, y=8, x=8), dict(N=24, y=12, x=6), dict(N=12, y=4, x=6)]


def _g27(**kw):
    return [dict(s, **c) for s in _S for c in grid(**kw)]


SPECS["C27"] = {
    "harnesses": [{"src": "c27.cpp", "repo": CORE + ["fourier_transforms/sdp_pswf.cpp", "fourier_transforms/sdp_swiftly.cpp"],
        "configs": grid(mode=3, image=[0, 6, 12, 16])
          + _g27(mode=0, op=[0, 7], n=[0, 3, 4]) + grid(mode=0, op=[0, 7], n=8, order=[0, 1, 2])
          + _g27(mode=0, op=[1, 2, 4, 5, 6]) + _g27(mode=0, op=3, n=[1, 4]) + _g27(mode=0, op=3, inplace=1)
          + grid(mode=0, op=[1, 2, 3, 4, 5, 6], order=[1, 2]) + grid(mode=0, op=3, inplace=1, order=[1, 2])
          + grid(mode=0, op=[0, 1, 2, 3, 4, 5, 6, 7], wrap=[-1, 1], rows=1) + grid(mode=0, op=[0, 1, 2, 5, 6, 7], any=1, rows=1)
          + grid(mode=0, op=3, inplace=1, wrap=[-1, 1], rows=1)
          + grid(mode=1, op=[2, 5], N=8, y=4, x=4) + grid(mode=1, op=[3, 4], inplace=1, N=8, y=4, x=4, few=1)
          + grid(mode=1, op=[2, 5], N=8, y=4, x=4, order=[1, 2], few=1) + grid(mode=1, op=[3, 4], inplace=1, N=8, y=4, x=4, few=1, order=[1, 2])
          + grid(mode=1, op=[2, 5], N=8, y=4, x=4, wrap=[-1, 1], any=1) + grid(mode=1, op=[2, 5], N=16, y=8, x=8, few=2)
          + grid(mode=2, op=[0, 1, 2, 3, 4, 5, 6, 7]) + grid(mode=2, op=3, inplace=1) + grid(mode=2, two=1, op=[2, 4, 5]) + grid(mode=2, two=1, op=3, inplace=1),
        "thorough": grid(mode=3, image=[2, 4, 8, 10, 18, 20, 24]) + grid(mode=1, op=[3, 4], inplace=1, N=8, y=4, x=4)
          + grid(mode=1, op=[2, 5], N=16, y=8, x=8, few=1) + grid(mode=1, op=[2, 5], N=12, y=4, x=6, few=1) + grid(mode=1, op=[3, 4], inplace=1, N=12, y=4, x=6, few=1)
          + [dict(c, rows=3) for c in grid(mode=0, op=[0, 1, 2, 3, 4, 5, 6, 7], N=36, y=12, x=12, w4=12, n=[5, 11])] + grid(mode=0, op=[0, 1, 2, 5, 6, 7], N=64, y=32, x=8, rows=1)}],
    "bounds": "plans with images of 8-24 pixels (thorough 64), facets 4-12 (32), sub-grids 4-8 (12), window parameter W=2 (3); every offset of a cycle, also whole images away, multiples of the documented step for values and any offset for memory accesses; 1-2 rows (3), C, Fortran and padded strides; the window function itself is C26's; values to 1e-9 relative",
}

SPECS["C24"] = {
    "harnesses": [{"src": "c24.cpp", "repo": CORE + FFT,
        "configs": grid(nd=1, nf=1, s0=[4, 5, 1], fwd=[0, 1], type=[0, 1], inplace=[0, 1])
          + grid(nd=2, nf=[1, 2], s0=[2, 3], s1=[4, 3], fwd=[0, 1], type=0, inplace=[0, 1], other=[0])
          + grid(nd=2, nf=[1, 2], s0=[4], s1=[2], fwd=[1], type=1, inplace=[0], other=[1])
          + grid(nd=3, nf=[2, 3], s0=2, s1=3, s2=[4, 2], fwd=[0, 1], type=0, inplace=[0, 1])
          + grid(op=[1, 2], nd=2, nf=2, inplace=1, s0=4, s1=4, fwd=[0, 1], type=[0, 1]) + grid(op=[1, 2], nd=2, nf=2, inplace=1, s0=2, s1=[2, 6], fwd=[0, 1], type=0) + grid(op=2, nd=2, nf=2, inplace=1, s0=2, s1=4, type=0) + grid(op=2, nd=2, nf=2, inplace=1, s0=3, s1=3, type=0)
          + grid(op=9, what=range(14)),
        "thorough": grid(nd=1, nf=1, s0=range(2, 13), fwd=[0, 1], type=[0, 1], inplace=[0, 1], other=[0, 1])
          + grid(nd=2, nf=[1, 2], s0=[3, 6], s1=[5, 6], fwd=[0, 1], type=[0, 1], inplace=[0, 1])
          + grid(op=[1, 2], nd=2, nf=2, inplace=1, s0=[2, 4, 6], s1=[4, 6], fwd=[0, 1], type=[0, 1])}],
    "bounds": "1 to 3 array dimensions of 1-5 elements (thorough up to 12) with every element a free complex number; forward and inverse, in place and out of place, single and double precision; the centred variant for even sizes; the vendored pocketfft library itself is replaced by the definition of the DFT over the shapes, strides, axes and direction it is given",
}

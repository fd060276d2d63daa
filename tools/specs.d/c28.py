SPECS["C28"] = {
    "harnesses": [{"src": "c28.cpp", "repo": CORE + FFT + ["numeric_functions/sdp_fft_convolution.cpp"],
        "configs": grid(n1=[1, 2, 3, 4], n2=[1, 2, 3], type=0) + grid(n1=[2, 3], n2=[4, 5], type=0) + grid(n1=[2, 3], n2=[2, 3], type=1) + grid(op=9, what=range(13)),
        "thorough": grid(n1=range(1, 6), n2=range(1, 6), type=[0, 1])}],
    "bounds": "square inputs of 1-4 and 1-5 pixels a side (thorough 1-5), every pixel a free complex number, single and double precision; the vendored pocketfft library is replaced by the definition of the DFT",
}

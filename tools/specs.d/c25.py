def _w(f, *ws):
    return [dict(op=0, lo=a, hi=b, f=f) for a, b in ws]
SPECS["C25"] = {
    "harnesses": [{"src": "c25.cpp", "repo": ["fourier_transforms/sdp_fft_padded_size.cpp"],
        "configs": _w(100, (-3, 20), (21, 60), (61, 100), (101, 160), (161, 220), (221, 300), (990, 1030), (4090, 4130), (19990, 20010), (65530, 65540))
                 + _w(125, (-3, 40), (41, 100), (101, 150)) + _w(150, (500, 540)) + _w(50, (1, 60)) + _w(333, (77, 99))
                 + grid(op=1, n=[1, 7, 33], lo=100, hi=220) + grid(op=1, n=[100], lo=[100], hi=150),
        "thorough": _w(100, *[(a, a + 39) for a in range(301, 2000, 40)]) + _w(100, *[(a, a + 19) for a in range(2000, 30000, 1237)]) + _w(100, *[(a, a + 9) for a in range(1000000, 200000000, 27654321)])
                 + _w(120, *[(a, a + 39) for a in range(151, 1000, 40)]) + _w(200, *[(a, a + 29) for a in range(1, 600, 30)]) + grid(op=1, n=[64, 257, 1000], lo=100, hi=[130])}],
    "bounds": "every n in the listed windows (-3..300, and windows around 1000, 4096, 20000 and 65536) for factors 1, and windows for 0.5, 1.25, 1.5 and 3.33; every factor in [1,2.2] for n = 1, 7, 33 and in [1,1.5] for n = 100 (thorough: every n to 2000 and windows to 2*10^8)",
}

SPECS["C17"] = {
    "harnesses": [{"src": "c17.cpp", "repo": GU + FFT,
        "configs": grid(op=0, type=range(12), exp=1, nx=2, ny=3, order=2, order2=1)
                 + grid(op=0, type=[0, 1, 4, 6], exp=[0, 2, -1, 3], nx=3, ny=2, order=[1], order2=[0])
                 + grid(op=0, type=[0, 7, 9], exp=[1, 2], null2=1, nx=2, ny=1, order=[0], order2=[2])
                 + grid(op=1, type=range(4), exp=[1, 0, 2, -1, 3], nx=2, ny=3, order=[2], order2=[1])
                 + grid(op=1, type=[0, 3], exp=[1], nx=3, ny=1, order=[0], order2=[0])
                 + grid(op=[2, 3], type=range(6), nx=[2], ny=[3], order=[1], order2=[2])
                 + grid(op=[2, 3], type=[0, 4], nx=[3], ny=[1], order=[0], order2=[0])
                 + grid(op=4, type=range(4), nx=2, ny=2, order=[0, 2])
                 + grid(op=4, type=[2], nx=[1, 3, 2], ny=[2, 1, 3], order=[1])
                 + grid(op=[5, 6], type=[0, 1], nx=[3, 4], ny=[4, 1], order=[0, 2]),
        "thorough": grid(op=0, type=range(12), exp=[0, 1, 2, 3, -2], nx=[4, 5], ny=[5, 3], order=[0, 1, 2], order2=[0, 1, 2])
                 + grid(op=1, type=range(4), exp=[1, 2, -2, 4], nx=[4], ny=[5], order=[0, 1, 2], order2=[0, 2])
                 + grid(op=[2, 3], type=range(6), nx=[4], ny=[5, 1], order=[0, 1, 2], order2=[0, 1])
                 + grid(op=[5, 6], type=[0, 1], nx=[5, 6], ny=[7, 8], order=[0, 1, 2])}],
    "bounds": "arrays up to 3x4 (thorough 6x8), rectangular, contiguous and strided; all accepted type combinations; exponents -1..3 (general powers: divisor values fixed, other operand symbolic); element values symbolic reals",
}

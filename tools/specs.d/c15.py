
SPECS["C15"] = {
    "harnesses": [{"src": "c15.cpp", "repo": GU,
        "configs": grid(op=[0, 1], type=[0, 1, 2, 3], gu=4, gv=5, su=3, sv=2, order=0, order2=0, rv=3)
                 + grid(op=[0, 1], type=[0], gu=3, gv=4, su=[4], sv=[3], order=2, order2=1, ru=3)
                 + grid(op=[0, 1], type=[1, 0], gu=1, gv=2, su=1, sv=2, order=1, order2=2)
                 + grid(op=[0, 1], type=[0, 3], gu=5, gv=3, su=2, sv=3, order=1, order2=2, ru=2)
                 + grid(op=2, type=[0, 1], gu=[1, 2, 4], sv=[2, 3], order=[0, 2]),
        "thorough": grid(op=[0, 1], type=[0, 1, 2, 3], gu=[6, 7], gv=[5, 8], su=[4, 5], sv=[4, 7], order=[0, 2], order2=[0, 1])}],
    "bounds": "grids up to 5x5 (thorough 7x8), sub-grids up to 4x3 (5x7) including larger than the grid, every offset in [-2G-1, 2G+1], every strides layout listed, all four element types; element values symbolic reals",
}

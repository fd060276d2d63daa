SPECS["C35"] = {
    "harnesses": [{"src": "c35.cpp", "repo": ["utility/sdp_timer.cpp", "utility/sdp_sky_coord.c"], "flags": ["-DSYM_STRINGS"],
        "configs": grid(op=0, len=[1, 2, 3], names=[2]) + grid(op=0, len=[2], names=3, th=4) + grid(op=1, len=[1, 2, 3], slots=[2, 3], pre=[0, 1]) + grid(op=2, len=[1, 2, 3, 4]) + grid(op=3), "thorough": grid(op=0, len=4, names=[1, 2]) + grid(op=1, len=4, slots=[2, 3], pre=[0, 1]) + grid(op=2, len=5)}],
    "bounds": "every sequence of up to 3 push/pop/pop-push calls over 2-3 names (4 in the thorough run), of up to 3 calls by 2-3 threads with explicit nodes, and of up to 4 start/pause/resume/restart/read calls of one timer, a free time of 1-1000 s passing between calls and none within one; the printed report compared line by line (name, time, percentage, indentation, order, unaccounted time) with a model; restarting a running timer and percentages of a parent that took no time left out; sky coordinates with any values and kinds of system names",
}

#!/usr/bin/env python3
"""replay_py.py REPO CASE.json: re-runs a counterexample of C36 with the real ctypes and numpy (exit 1: it fails)."""
import json, os, subprocess, sys, tempfile
PY = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "py")
PREP = """
import sys, json
sys.path.insert(0, sys.argv[1])
import protos, cases
pr = protos.load(sys.argv[2], sys.argv[3])
en = protos.enums(sys.argv[2], sys.argv[3], sorted(set(cases.TYPES.values()) | {'SDP_MEM_VOID', 'SDP_MEM_CPU', 'SDP_MEM_GPU'}))
json.dump({'protos': pr, 'enums': en}, open(sys.argv[3] + '/protos.json', 'w'))
"""
with tempfile.TemporaryDirectory() as d:
    env = dict(os.environ, SKA_SDP_FUNC_LIB_DIR=d, PYTHONDONTWRITEBYTECODE="1")
    subprocess.check_call(["python3-vt", "-c", PREP, PY, sys.argv[1], d], env=env)
    subprocess.check_call(["python3-vt", os.path.join(PY, "recorder.py"), d], env=env, stdout=subprocess.DEVNULL)
    sys.exit(subprocess.call(["python3-vt", os.path.join(PY, "replay.py"), sys.argv[1], d, sys.argv[2]], env=env))

#!/usr/bin/env python3-vt
"""replay.py <file in replay/>: rebuild the harness from /repo and rerun the recorded failing input"""
import sys, os, json, importlib, subprocess
V = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'props')]
import build
f = sys.argv[1]; f = f if os.path.exists(f) else os.path.join(V, 'replay', f)
d = json.load(open(f))
if 'input_hex' not in d: print(json.dumps(d, indent=1)); sys.exit(1)
P = importlib.import_module(d['property'].lower())
exe = build.harness(P.HARNESS, P.SOURCES, **getattr(P, 'HOPTS', {}))
scr = build.scratch()
sys.exit(subprocess.run([exe, 'replay', d['test'], d['input_hex'] or '-'], cwd=scr, env=dict(os.environ, VP_SCRATCH=scr)).returncode)

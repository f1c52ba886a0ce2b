"""development aid: build one scenario file and run it
usage: h1.py name [-i] [args for the binary]"""
import sys, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import bounded
a = sys.argv[1:]
name = a.pop(0)
instr = bool(a) and a[0] == '-i'
if instr:
    a.pop(0)
b = bounded.build_harness(name, instr)
sys.exit(subprocess.run([b] + a).returncode)

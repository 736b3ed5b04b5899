#!/opt/veriftools/pyvenv/bin/python
"""irdump.py srcs fn [mods]: the LLVM IR of one function as the verifier sees it (development aid)."""
import sys, os, tempfile, re, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/contracts']
import runner
keep = set()
for m in (sys.argv[3].split(',') if len(sys.argv) > 3 else []):
    keep |= set(importlib.import_module(m).CONTRACTS)
keep.add(sys.argv[2])
with tempfile.TemporaryDirectory() as wd:
    t = open(runner.build_module(sys.argv[1].split(','), sorted(keep), wd)).read()
m = re.search(r'define [^\n]*@%s\(.*?\n}\n' % re.escape(sys.argv[2]), t, re.S)
print(re.sub(r', !(dbg|srcloc|tbaa)[^\n]*', '', m.group(0)))

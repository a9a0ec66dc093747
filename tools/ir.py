"""development aid: print the IR that the analyser sees.  ir.py SRC [flags] [function]"""
import sys, os, ctypes
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from vf import llvm
m = llvm.load(llvm.compile_bc(sys.argv[1], [a for a in sys.argv[2:] if a.startswith('-')]))
llvm.prepare(m, lambda n: False, None)
lib = llvm._lib()
lib.LLVMPrintModuleToString.restype = ctypes.c_char_p

t = lib.LLVMPrintModuleToString(m.ref).decode()
fn = [a for a in sys.argv[2:] if not a.startswith('-')]
on = not fn
for l in t.splitlines():
    if l.startswith('define') and fn:
        on = any(('@%s(' % f) in l for f in fn)
    if on and 'dbg.value' not in l and 'dbg.declare' not in l:
        print(l.split(', !dbg')[0])
    if l == '}' and fn:
        on = False

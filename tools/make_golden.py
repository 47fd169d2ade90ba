"""Record reference values of the pinned tree (see DESIGN.md, 'golden values'); run once: make_golden.py NAME..."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import wload
wload.load()
import golden
for n in sys.argv[1:] or golden.MAKERS:
    golden.make(n)
    print(n, os.path.getsize(golden.path(n)))

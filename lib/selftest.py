"""Are the interpreter, the libraries and the code under test there?"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, env
r = engine.R(choices=[3, 1])
assert (r.int(0, 5), r.int(2, 4), r.int(0, 9)) == (3, 3, 0)
found = engine.search(lambda r: [r.int(0, 9) for _ in range(r.int(0, 9))], lambda c: sum(c) > 20, 1000, 1)
small = engine.shrink(lambda r: [r.int(0, 9) for _ in range(r.int(0, 9))], lambda c: sum(c) > 20, found, 5)
assert sum(small) > 20 and len(small) <= 4, small
ja = env.setup("multi")
print("ok: jajapy from", ja.__file__)

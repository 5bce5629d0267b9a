#!/usr/bin/env python3
"""Builds the library and every harness and fills the device code cache."""
import concurrent.futures
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import check as K
import checks as C

t0 = time.time()
ids = sorted(C.CHECKS)
try:
    libdir, exes = B.build(ids, verbose=True)
except B.BuildError as e:
    print(str(e)[-6000:])
    sys.exit(1)
print("built in %.0f s" % (time.time() - t0), flush=True)


def warm(i):
    c = K.Check(i, "quick", 1)
    c.exe, c.libdir = exes[i], libdir
    c.warm()


with concurrent.futures.ThreadPoolExecutor(4) as ex:
    list(ex.map(warm, ids))
print("ready in %.0f s" % (time.time() - t0))

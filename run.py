#!/usr/bin/env python3-vt
"""python3-vt run.py <property id>: decide one property on the current /repo tree. python3-vt run.py --setup: build tools and warm caches."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from vc import driver
try: rc = driver.setup() if sys.argv[1] == '--setup' else driver.main(sys.argv[1])
except Exception: traceback.print_exc(); rc = 2
sys.stdout.flush()
os._exit(rc)

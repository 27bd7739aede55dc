#!/usr/bin/env python3-vt
"""dev helper: drv.py DRIVER[,DRIVER] PROP SECONDS — builds (cached objects) and runs the replay drivers in parallel"""
import os, sys, tempfile, shutil, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('F2CV_CACHE', '/tmp/f2cv-cache')
from f2cv import replay
w = tempfile.mkdtemp(prefix='f2cvdrv_')
try:
    B = replay.Build(sys.argv[1].split(','), w, 8)
    bins = B.build()
    for s, e in B.skipped.items():
        print('SKIPPED', s, e[:1500])
    f, c, s = replay.campaign(bins, sys.argv[2], int(os.environ.get('VERIF_SEED', '1')), float(sys.argv[3]), 8, w)
    for x in f[:3]:
        print('FAIL', json.dumps(x)[:2500])
    print(c)
finally:
    shutil.rmtree(w)

#!/usr/bin/env python3
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import xv
errs = []
def go(f, *a):
    try: f(*a)
    except Exception as e: errs.append(e)
th = [threading.Thread(target=go, args=(xv.build_engine,))]
def cfg(c):
    os.unlink(xv.build_ir(c, {"h_sem"})); xv.build_replay(c)
th += [threading.Thread(target=go, args=(cfg, c)) for c in ("p", "j", "po", "jo", "npo", "pr", "por")]
for t in th: t.start()
for t in th: t.join()
for e in errs: print(e)
sys.exit(1 if errs else 0)
